package harness

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"pgregory.net/rapid"
)

// subscription is a running call to Stream.
type subscription struct {
	b      trcweb.Streamer
	ch     chan trc.Trace
	filter trc.Filter
	ctx    context.Context
	cancel context.CancelFunc
	done   chan struct{}
	stats  trc.StreamStats
	err    error

	want  []*trc.StaticTrace // expected contents of the channel
	model trc.StreamStats
}

// subscribe calls Stream in the background, and returns when the channel is
// subscribed, or when Stream has returned.
func subscribe(b trcweb.Streamer, ctx context.Context, f trc.Filter, ch chan trc.Trace) *subscription {
	s := &subscription{b: b, ch: ch, filter: f, done: make(chan struct{})}
	s.ctx, s.cancel = context.WithCancel(ctx)
	go func() {
		defer close(s.done)
		s.stats, s.err = b.Stream(s.ctx, f, ch)
	}()
	until := subscribedDeadline()
	for {
		if _, err := b.StreamStats(bg, ch); err == nil || until() {
			return s
		}
		select {
		case <-s.done:
			return s
		default:
			runtime.Gosched()
		}
	}
}

var subscribeTookTooLong atomic.Bool

// subscribedDeadline says when to no longer wait for a subscription to begin. If
// that's the case, then what follows is likely to fail, unless it's just the
// statistics that are wrong. There's no point in waiting for them again.
func subscribedDeadline() func() bool {
	limit := waitLimit
	if subscribeTookTooLong.Load() {
		limit = 2 * time.Millisecond
	}
	deadline := time.Now().Add(limit)
	return func() bool {
		late := time.Now().After(deadline)
		if late {
			subscribeTookTooLong.Store(true)
		}
		return late
	}
}

// stop cancels the subscription, and waits until Stream has returned.
func (s *subscription) stop(t fataler) {
	t.Helper()
	s.cancel()
	finishes(t, "Stream with a canceled context", func() { <-s.done })
}

func (s *subscription) isDone() bool {
	select {
	case <-s.done:
		return true
	default:
		return false
	}
}

// modelStream is the reference implementation of stream snapshots.
func modelStream(tr trc.Trace) *trc.StaticTrace {
	st := modelStatic(tr, -1)
	if !st.TraceFinished && len(st.TraceEvents) > 1 {
		st.TraceEvents = st.TraceEvents[len(st.TraceEvents)-1:]
	}
	st.TraceDurationStr = st.TraceDuration.String()
	st.TraceDurationSec = st.TraceDuration.Seconds()
	return st
}

func (s *subscription) publish(want *trc.StaticTrace) {
	switch {
	case !modelAllow(s.filter, want):
		s.model.Skips++
	case len(s.want) >= cap(s.ch):
		s.model.Drops++
	default:
		s.model.Sends++
		s.want = append(s.want, want)
	}
}

// receive takes one trace from the channel, and compares it to the expectation.
func (s *subscription) receive(rt *rapid.T) bool {
	rt.Helper()
	select {
	case tr := <-s.ch:
		if len(s.want) == 0 {
			rt.Fatalf("received trace %q, want none", tr.ID())
		}
		st, ok := tr.(*trc.StaticTrace)
		if !ok {
			st = modelStatic(tr, 0)
			st.TraceDurationStr, st.TraceDurationSec = s.want[0].TraceDurationStr, s.want[0].TraceDurationSec
		}
		if err := staticEqual(st, s.want[0]); err != nil {
			rt.Fatalf("received trace: %v", err)
		}
		s.want = s.want[1:]
		return true
	default:
		if len(s.want) > 0 {
			rt.Fatalf("received nothing, want trace %q", s.want[0].TraceID)
		}
		return false
	}
}

// staticSource is a static trace, which doesn't copy its events.
func publishable(rt *rapid.T, pools filterPools, serial int) (tr trc.Trace, want *trc.StaticTrace, after func()) {
	id := fmt.Sprintf("T%d", serial)
	if rapid.IntRange(0, 15).Draw(rt, "noid") == 0 {
		id = ""
	}
	return publishableID(rt, pools, id)
}

func publishableID(rt *rapid.T, pools filterPools, id string) (tr trc.Trace, want *trc.StaticTrace, after func()) {
	st := genStatic().Draw(rt, "trace")
	if len(pools.cats) > 0 {
		st.TraceCategory = rapid.SampledFrom(pools.cats).Draw(rt, "cat")
	}
	st.TraceID = id
	after = func() {}
	switch rapid.IntRange(0, 3).Draw(rt, "impl") {
	case 0:
		tr = st
		after = func() { // must not affect copies
			for i := range st.TraceEvents {
				st.TraceEvents[i].What = "modified"
			}
			st.TraceFinished, st.TraceErrored, st.TraceID = !st.TraceFinished, !st.TraceErrored, "modified"
		}
	case 1:
		tr = struct{ trc.Trace }{st}
	default:
		ft := &fakeTrace{id: st.TraceID, source: st.TraceSource, category: st.TraceCategory, started: st.TraceStarted, duration: st.TraceDuration, finished: st.TraceFinished, errored: st.TraceErrored, events: st.TraceEvents}
		tr = ft
		after = func() { ft.Errorf("modified"); ft.Finish() }
	}
	return tr, modelStream(tr), after
}

func genStreamFilter(rt *rapid.T, pools filterPools) trc.Filter {
	if rapid.IntRange(0, 2).Draw(rt, "nofilter") == 0 {
		return trc.Filter{}
	}
	f := genFilter(pools, false).Draw(rt, "filter")
	if rapid.Bool().Draw(rt, "loose") { // so that it sometimes matches
		f.Sources, f.IDs = nil, nil
	}
	return f
}

func TestC18(t *testing.T) {
	pools := filterPools{sources: []string{"a", "b", "c"}, ids: []string{"T1", "T2", "T3"}, cats: []string{"a", "b"}}

	check(t, "histories", "random histories of subscribing (any filter, channel capacities 0 to 4), publishing (four kinds of traces, which are modified afterwards), receiving, reading statistics and canceling, on a broker or a collector's broker, compared with a model of sent, dropped and skipped traces; non-trivial: something was sent, and something else dropped or skipped", 300, func(rt *rapid.T, k *kase) {
		broker := trc.NewBroker()
		var subs []*subscription
		defer func() {
			for _, s := range subs {
				s.cancel()
				<-s.done
			}
		}()
		total := trc.StreamStats{}
		maxSubs := 4
		if sometimes(rt, "many") {
			maxSubs = rapid.IntRange(5, 40).Draw(rt, "subs")
			for len(subs) < maxSubs {
				f := trc.Filter{}
				if len(subs)%3 == 0 {
					f = genStreamFilter(rt, pools)
				}
				subs = append(subs, subscribe(broker, bg, f, make(chan trc.Trace, len(subs)%4)))
			}
			k.notef("%d subs", len(subs))
			k.label(true, "many subscribers")
		}
		verify := func(s *subscription, have trc.StreamStats) {
			if have != s.model {
				rt.Fatalf("statistics are %s, want %s (filter %s)", have, s.model, showFilter(s.filter))
			}
		}
		for i, n := 0, rapid.IntRange(3, 30).Draw(rt, "ops"); i < n; i++ {
			op := rapid.IntRange(0, 9).Draw(rt, "op")
			switch {
			case op == 0 || len(subs) == 0:
				if len(subs) >= maxSubs {
					continue
				}
				capacity := rapid.SampledFrom([]int{0, 1, 2, 4, 100}).Draw(rt, "cap")
				s := subscribe(broker, bg, genStreamFilter(rt, pools), make(chan trc.Trace, capacity))
				if s.isDone() {
					rt.Fatalf("Stream returned at once: %v", s.err)
				}
				k.notef("sub cap=%d %s", capacity, showFilter(s.filter))
				subs = append(subs, s)
			case op == 1 && len(subs) > 1:
				j := rapid.IntRange(0, len(subs)-1).Draw(rt, "which")
				s := subs[j]
				subs = append(subs[:j], subs[j+1:]...)
				s.stop(rt)
				verify(s, s.stats)
				for s.receive(rt) {
				}
				k.notef("cancel %d", j)
			case op == 2 || op == 3:
				s := subs[rapid.IntRange(0, len(subs)-1).Draw(rt, "which")]
				for j, n := 0, rapid.IntRange(1, 4).Draw(rt, "count"); j < n; j++ {
					s.receive(rt)
				}
				k.notef("receive")
			default:
				tr, want, after := publishable(rt, pools, i)
				finishes(rt, "Publish", func() { broker.Publish(bg, tr) })
				after()
				k.notef("publish %s %s %d events fin=%v", want.TraceID, want.TraceCategory, len(want.TraceEvents), want.TraceFinished)
				for _, s := range subs {
					before := s.model
					s.publish(want)
					total.Sends += s.model.Sends - before.Sends
					total.Drops += s.model.Drops - before.Drops
					total.Skips += s.model.Skips - before.Skips
				}
			}
			for _, s := range subs {
				have, err := broker.StreamStats(bg, s.ch)
				if err != nil {
					rt.Fatalf("StreamStats: %v", err)
				}
				verify(s, have)
				if len(s.ch) != len(s.want) {
					rt.Fatalf("channel has %d traces, want %d", len(s.ch), len(s.want))
				}
			}
		}
		for _, s := range subs {
			for s.receive(rt) {
			}
			s.stop(rt)
			verify(s, s.stats)
		}
		k.label(total.Drops > 0, "drops")
		k.label(total.Skips > 0, "skips")
		k.interesting(total.Sends > 0 && total.Drops+total.Skips > 0)
	})

	check(t, "concurrent", "several goroutines publish, or use traces of a collector, while subscribers with different capacities and filters receive at different speeds, or not at all, and some of them come and go; numbers and order of received traces agree with statistics; non-trivial: at least 2 publishers and 2 subscribers", 60, func(rt *rapid.T, k *kase) {
		broker := trc.NewBroker()
		var (
			publishers = rapid.IntRange(1, 5).Draw(rt, "publishers")
			perp       = rapid.IntRange(1, 60).Draw(rt, "perp")
			nsubs      = rapid.IntRange(1, 4).Draw(rt, "subs")
			visitors   = rapid.IntRange(0, 2).Draw(rt, "visitors")
		)
		type sub struct {
			*subscription
			cat   string
			speed int // 0: doesn't receive until the end
			have  []trc.Trace
			quit  chan struct{}
		}
		var subs []*sub
		for i := 0; i < nsubs; i++ {
			capacity := rapid.SampledFrom([]int{0, 1, 5, 1000}).Draw(rt, "cap")
			cat := rapid.SampledFrom([]string{"", "even", "odd", "none"}).Draw(rt, "cat")
			speed := rapid.IntRange(0, 2).Draw(rt, "speed")
			k.notef("sub cap=%d cat=%q speed=%d", capacity, cat, speed)
			s := &sub{subscription: subscribe(broker, bg, trc.Filter{Category: cat}, make(chan trc.Trace, capacity)), cat: cat, speed: speed, quit: make(chan struct{})}
			defer s.cancel()
			subs = append(subs, s)
		}
		k.notef("%d publishers of %d, %d visitors", publishers, perp, visitors)
		k.interesting(publishers >= 2 && nsubs >= 2)
		var (
			receivers, pubs, vis sync.WaitGroup
			stop                 atomic.Bool
			problems             = make(chan string, 100)
		)
		problem := func(format string, args ...any) {
			select {
			case problems <- fmt.Sprintf(format, args...):
			default:
			}
		}
		for _, s := range subs {
			if s.speed == 0 {
				continue
			}
			receivers.Add(1)
			go func(s *sub) {
				defer receivers.Done()
				for {
					select {
					case tr := <-s.ch:
						s.have = append(s.have, tr)
						if s.speed == 1 {
							runtime.Gosched()
						}
					case <-s.quit:
						return
					}
				}
			}(s)
		}
		for v := 0; v < visitors; v++ {
			vis.Add(1)
			go func() {
				defer vis.Done()
				for i := 0; !stop.Load() && i < 50; i++ {
					s := subscribe(broker, bg, trc.Filter{}, make(chan trc.Trace, i%3))
					runtime.Gosched()
					s.cancel()
					<-s.done
					if !errors.Is(s.err, context.Canceled) {
						problem("visitor's Stream returned %v", s.err)
					}
					if s.stats.Sends != len(s.ch) || s.stats.Skips != 0 {
						problem("visitor's statistics %s, channel has %d traces", s.stats, len(s.ch))
					}
				}
			}()
		}
		finishes(rt, "concurrent publishing", func() {
			for p := 0; p < publishers; p++ {
				pubs.Add(1)
				go func(p int) {
					defer pubs.Done()
					for i := 0; i < perp; i++ {
						broker.Publish(bg, &trc.StaticTrace{TraceID: fmt.Sprintf("%d %d", p, i), TraceCategory: []string{"even", "odd"}[i%2], TraceFinished: true})
					}
				}(p)
			}
			pubs.Wait()
			stop.Store(true)
			vis.Wait()
			for _, s := range subs {
				close(s.quit)
			}
			receivers.Wait()
		})
		select {
		case p := <-problems:
			rt.Fatalf("%s", p)
		default:
		}
		for i, s := range subs {
			s.stop(rt)
			for len(s.ch) > 0 {
				s.have = append(s.have, <-s.ch)
			}
			match := 0
			for j := 0; j < perp; j++ {
				if s.cat == "" || s.cat == []string{"even", "odd"}[j%2] {
					match += publishers
				}
			}
			if s.stats.Sends+s.stats.Drops != match || s.stats.Skips != publishers*perp-match {
				rt.Fatalf("subscriber %d has statistics %s, want %d matches of %d", i, s.stats, match, publishers*perp)
			}
			if len(s.have) != s.stats.Sends {
				rt.Fatalf("subscriber %d received %d traces, statistics %s", i, len(s.have), s.stats)
			}
			if cap(s.ch) >= publishers*perp && s.stats.Drops > 0 {
				rt.Fatalf("subscriber %d has drops, although its channel (capacity %d) has room for all of %d", i, cap(s.ch), match)
			}
			if s.speed == 0 && s.stats.Sends != min(cap(s.ch), match) {
				rt.Fatalf("subscriber %d has statistics %s, with %d matches and capacity %d", i, s.stats, match, cap(s.ch))
			}
			last := map[int]int{}
			for _, tr := range s.have {
				var p, n int
				if _, err := fmt.Sscanf(tr.ID(), "%d %d", &p, &n); err != nil {
					rt.Fatalf("received %q", tr.ID())
				}
				if s.cat != "" && tr.Category() != s.cat {
					rt.Fatalf("received %q of category %q, want %q", tr.ID(), tr.Category(), s.cat)
				}
				if prev, ok := last[p]; ok && n <= prev {
					rt.Fatalf("received trace %d of publisher %d after %d", n, p, prev)
				}
				last[p] = n
			}
		}
	})
}

// ---- C19 ------------------------------------------------------------------

func TestC19(t *testing.T) {
	check(t, "steps", "random histories of traces in a collector (core and harness traces, with and without decorators, up to beyond the event limit), directly and via prefixes, with other traces in between; after every step, the subscriber has exactly one new snapshot, as expected; non-trivial: at least 3 steps", 400, func(rt *rapid.T, k *kase) {
		limit := rapid.SampledFrom([]int{1000, 1000, 10}).Draw(rt, "limit")
		trc.SetTraceMaxEvents(limit)
		defer trc.SetTraceMaxEvents(1000)
		impl := rapid.SampledFrom([]string{"core", "core", "decorated", "fake", "wrapped", "shared broker"}).Draw(rt, "impl")
		cfg := trc.CollectorConfig{Source: "src"}
		ff := &fakeFactory{}
		var log lockedBuf
		switch impl {
		case "decorated":
			cfg.Decorators = []trc.DecoratorFunc{trc.LogDecorator(&log), func(tr trc.Trace) trc.Trace { return struct{ trc.Trace }{tr} }}
		case "fake":
			cfg.NewTrace = ff.new
			limit = 1 << 30
		case "wrapped": // no EventsDetail method
			cfg.NewTrace = func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
				return trc.New(ctx, source, category, append([]trc.DecoratorFunc{func(tr trc.Trace) trc.Trace { return struct{ trc.Trace }{tr} }}, ds...)...)
			}
		}
		var streamer trcweb.Streamer
		if impl == "shared broker" {
			cfg.Broker = trc.NewBroker()
			streamer = cfg.Broker
		}
		col := trc.NewCollector(cfg)
		if streamer == nil {
			streamer = col
		}
		s := subscribe(streamer, bg, trc.Filter{}, make(chan trc.Trace, 10))
		defer func() { s.cancel(); <-s.done }()

		type live struct {
			tr       trc.Trace
			handles  []trc.Trace
			prefixes []string
			lm       limitModel
			finished bool
			category string
			began    time.Time
		}
		var traces []*live
		steps := 0
		expect := func(l *live, what string) {
			steps++
			var got []trc.Trace
			for len(s.ch) > 0 {
				got = append(got, <-s.ch)
			}
			if len(got) != 1 {
				rt.Fatalf("%d snapshots after %s, want 1", len(got), what)
			}
			tr := got[0]
			if tr.ID() != l.tr.ID() || tr.Source() != "src" || tr.Category() != l.category || !tr.Started().Equal(l.tr.Started()) {
				rt.Fatalf("snapshot after %s is of (%q, %q, %q, %s), want (%q, %q, %q, %s)", what, tr.ID(), tr.Source(), tr.Category(), tr.Started(), l.tr.ID(), "src", l.category, l.tr.Started())
			}
			if tr.Finished() != l.finished || tr.Errored() != l.lm.errored {
				rt.Fatalf("snapshot after %s: finished %v errored %v, want %v %v", what, tr.Finished(), tr.Errored(), l.finished, l.lm.errored)
			}
			if err := eventsMatch(tr.Events(), streamWant(l.finished, l.lm.want())); err != nil {
				rt.Fatalf("snapshot after %s: %v", what, err)
			}
			all := l.tr.Events()
			if !l.finished && len(all) > 1 {
				all = all[len(all)-1:]
			}
			if err := eventsEqual(tr.Events(), stripStacks(all)); err != nil {
				rt.Fatalf("snapshot after %s, and events of the trace: %v", what, err)
			}
			switch {
			case impl == "fake" || l.finished:
				if tr.Duration() != l.tr.Duration() {
					rt.Fatalf("snapshot after %s has duration %s, the trace has %s", what, tr.Duration(), l.tr.Duration())
				}
			case tr.Duration() < 0 || tr.Duration() > time.Since(l.began):
				rt.Fatalf("snapshot after %s has duration %s, %s after it was created", what, tr.Duration(), time.Since(l.began))
			}
			if st, ok := tr.(*trc.StaticTrace); ok {
				if st.TraceDurationStr != st.TraceDuration.String() || st.TraceDurationSec != st.TraceDuration.Seconds() {
					rt.Fatalf("snapshot after %s: duration %s, string %q, seconds %v", what, st.TraceDuration, st.TraceDurationStr, st.TraceDurationSec)
				}
			}
		}
		nops := rapid.IntRange(2, 25).Draw(rt, "ops")
		for i := 0; i < nops; i++ {
			op := rapid.IntRange(0, 11).Draw(rt, "op")
			var active []*live
			for _, l := range traces {
				if !l.finished {
					active = append(active, l)
				}
			}
			if op == 0 || len(active) == 0 {
				ff.next = &fakeTrace{id: fmt.Sprint("fake", i), started: baseTime, duration: genDuration().Draw(rt, "duration")}
				l := &live{category: genName().Draw(rt, "category"), lm: limitModel{max: limit}, began: time.Now()}
				k.notef("new %q", l.category)
				_, l.tr = col.NewTrace(bg, l.category)
				l.handles, l.prefixes = []trc.Trace{l.tr}, []string{""}
				traces = append(traces, l)
				expect(l, "NewTrace")
				continue
			}
			l := active[rapid.IntRange(0, len(active)-1).Draw(rt, "which")]
			switch op {
			case 1:
				p := genWord().Draw(rt, "prefix")
				j := rapid.IntRange(0, len(l.handles)-1).Draw(rt, "parent")
				ctx, _ := trc.Put(bg, l.handles[j])
				_, h := trc.Prefix(ctx, p)
				l.handles, l.prefixes = append(l.handles, h), append(l.prefixes, l.prefixes[j]+p+" ")
				if len(s.ch) > 0 {
					rt.Fatalf("Prefix made a snapshot")
				}
			case 2:
				l.handles[rapid.IntRange(0, len(l.handles)-1).Draw(rt, "handle")].Finish()
				l.finished = true
				k.notef("finish")
				expect(l, "Finish")
			default:
				c := genCallW(true).Draw(rt, "call")
				k.notef("%s", c)
				times := 1
				if limit == 10 && op == 3 {
					times = 9
				}
				if limit > 10 && op == 3 && seldom(rt, "many") { // only checking that there's a snapshot
					for j, n := 0, rapid.IntRange(50, 1100).Draw(rt, "n"); j < n; j++ {
						h := j % len(l.handles)
						c.apply(l.handles[h])
						l.lm.add(l.prefixes[h]+c.text(), c.iserr)
						if n := len(s.ch); n != 1 {
							rt.Fatalf("%d snapshots after %s, want 1", n, c)
						}
						if st := <-s.ch; st.ID() != l.tr.ID() || len(st.Events()) != 1 {
							rt.Fatalf("snapshot after %s is of %s and has %d events, want %s and 1", c, st.ID(), len(st.Events()), l.tr.ID())
						}
						steps++
					}
				}
				for j := 0; j < times; j++ {
					h := rapid.IntRange(0, len(l.handles)-1).Draw(rt, "handle")
					c.apply(l.handles[h])
					l.lm.add(l.prefixes[h]+c.text(), c.iserr)
					expect(l, c.String())
				}
			}
		}
		k.label(impl == "fake" || impl == "wrapped", "third-party implementation")
		k.interesting(steps >= 3)
	})

	checkN(t, "concurrent", "several goroutines add events to one or two traces of a collector (directly, or via prefixes and decorators), one of them may finish its trace at any time; each subscriber gets one snapshot per call, in an order in which no snapshot is older than the one before; non-trivial: at least 2 writers of the same trace", 150, 2000, func(rt *rapid.T, k *kase) {
		var (
			ntraces = rapid.IntRange(1, 2).Draw(rt, "traces")
			writers = rapid.IntRange(1, 5).Draw(rt, "writers")
			perw    = rapid.IntRange(1, 60).Draw(rt, "events")
			early   = rapid.IntRange(0, 2).Draw(rt, "early") == 0 // finished while there are writers
			impl    = rapid.SampledFrom([]string{"core", "decorated", "wrapped"}).Draw(rt, "impl")
			nsubs   = rapid.IntRange(1, 2).Draw(rt, "subs")
		)
		k.notef("%d traces (%s), %d writers x %d events, early finish %v, %d subscribers", ntraces, impl, writers, perw, early, nsubs)
		k.interesting(writers >= 2)
		k.label(early, "finished while in use")
		cfg := trc.CollectorConfig{Source: "src"}
		ident := func(tr trc.Trace) trc.Trace { return struct{ trc.Trace }{tr} }
		switch impl {
		case "decorated":
			cfg.Decorators = []trc.DecoratorFunc{trc.LogDecorator(io.Discard), ident}
		case "wrapped":
			cfg.NewTrace = func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
				return trc.New(ctx, source, category, append([]trc.DecoratorFunc{ident}, ds...)...)
			}
		}
		col := trc.NewCollector(cfg)
		var subs []*subscription
		for i := 0; i < nsubs; i++ {
			s := subscribe(col, bg, trc.Filter{}, make(chan trc.Trace, 2000))
			defer func() { s.cancel(); <-s.done }()
			subs = append(subs, s)
		}
		var (
			traces []trc.Trace
			wg     sync.WaitGroup
			start  = make(chan struct{})
		)
		for i := 0; i < ntraces; i++ {
			ctx, tr := col.NewTrace(bg, fmt.Sprint("cat", i))
			traces = append(traces, tr)
			_, ptr := trc.Prefix(ctx, "p")
			for w := 0; w < writers; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					<-start
					h := tr
					if w%2 == 1 {
						h = ptr
					}
					for j := 0; j < perw; j++ {
						(call{lazy: j%2 == 0, iserr: j%7 == 6, format: "w%d-%d", args: []any{w, j}}).apply(h)
						if early && w == 0 && j == perw/2 {
							h.Finish()
						}
					}
				}(w)
			}
		}
		close(start)
		finishes(rt, "writers", wg.Wait)
		for _, tr := range traces {
			if !early {
				tr.Finish()
			}
		}
		for si, s := range subs {
			got := map[string][]trc.Trace{}
			for len(s.ch) > 0 {
				tr := <-s.ch
				got[tr.ID()] = append(got[tr.ID()], tr)
			}
			if len(got) != ntraces {
				rt.Fatalf("subscriber %d has snapshots of %d traces, want %d", si, len(got), ntraces)
			}
			for ti, tr := range traces {
				snaps, all := got[tr.ID()], tr.Events()
				index := map[string]int{}
				for i, ev := range all {
					index[ev.What] = i
				}
				if want := 1 + writers*perw + 1; !early && len(snaps) != want {
					rt.Fatalf("subscriber %d has %d snapshots of trace %d, want %d", si, len(snaps), ti, want)
				}
				// Once finished, a trace may or may not be published again.
				if len(snaps) < 1+len(all)+1 {
					rt.Fatalf("subscriber %d has %d snapshots of trace %d with %d events", si, len(snaps), ti, len(all))
				}
				if first := snaps[0]; first.Finished() || first.Errored() || len(first.Events()) != 0 {
					rt.Fatalf("subscriber %d, trace %d: first snapshot: finished %v, errored %v, %d events", si, ti, first.Finished(), first.Errored(), len(first.Events()))
				}
				latest, finished, errored := -1, false, false
				var duration time.Duration
				for i, snap := range snaps {
					at := fmt.Sprintf("subscriber %d, trace %d, snapshot %d of %d", si, ti, i, len(snaps))
					if snap.Duration() < duration {
						rt.Fatalf("%s: duration %s is less than %s before", at, snap.Duration(), duration)
					}
					duration = snap.Duration()
					if errored && !snap.Errored() {
						rt.Fatalf("%s isn't errored, but one before was", at)
					}
					errored = snap.Errored()
					if snap.Finished() {
						finished = true
						if err := eventsEqual(snap.Events(), stripStacks(all)); err != nil {
							rt.Fatalf("%s, of the finished trace: %v", at, err)
						}
						continue
					}
					if finished {
						rt.Fatalf("%s is active, after the trace was finished", at)
					}
					if i == 0 {
						continue
					}
					if n := len(snap.Events()); n != 1 {
						rt.Fatalf("%s has %d events", at, n)
					}
					j, ok := index[snap.Events()[0].What]
					if !ok {
						rt.Fatalf("%s has event %q, which isn't one of the trace", at, snap.Events()[0].What)
					}
					if j < latest {
						rt.Fatalf("%s has event %d, after one with event %d", at, j, latest)
					}
					latest = j
				}
				if !finished {
					rt.Fatalf("subscriber %d, trace %d: no snapshot of the finished trace", si, ti)
				}
			}
		}
	})

	check(t, "implementations", "snapshots of generated traces of every implementation (static, wrapped static, harness traces with and without EventsDetail, core, decorated) compared with a reference model, and the source trace compared before and after; non-trivial: the trace has events", 1500, func(rt *rapid.T, k *kase) {
		var tr trc.Trace
		kind := rapid.SampledFrom([]string{"static", "wrapped", "fake", "core", "core"}).Draw(rt, "kind")
		switch kind {
		case "core":
			m := makeTrace(rapid.SampledFrom(makerKinds).Draw(rt, "maker"), "src", "cat")
			defer m.cancel()
			tr = m.tr
			for i, n := 0, rapid.IntRange(0, 5).Draw(rt, "n"); i < n; i++ {
				c := genCall().Draw(rt, "call")
				c.apply(tr)
			}
			if seldom(rt, "many") {
				for i, n := 0, rapid.IntRange(50, 1100).Draw(rt, "n"); i < n; i++ {
					call{format: "many %d", args: []any{i}, lazy: i%2 == 0, iserr: i%50 == 49}.apply(tr)
				}
			}
			if rapid.Bool().Draw(rt, "finish") {
				tr.Finish()
			}
		default:
			st := genStatic().Draw(rt, "trace")
			tr = st
			if kind == "wrapped" {
				tr = struct{ trc.Trace }{st}
			}
			if kind == "fake" {
				tr = &fakeTrace{id: st.TraceID, source: st.TraceSource, category: st.TraceCategory, started: st.TraceStarted, duration: st.TraceDuration, finished: st.TraceFinished, errored: st.TraceErrored, events: st.TraceEvents}
			}
		}
		before := modelStatic(tr, 0)
		k.notef("%s fin=%v err=%v %d events", kind, before.TraceFinished, before.TraceErrored, len(before.TraceEvents))
		k.interesting(len(before.TraceEvents) > 0)
		have, want := trc.NewStreamTrace(tr), modelStream(tr)
		if !want.TraceFinished && kind == "core" { // ticking
			if have.TraceDuration < before.TraceDuration || have.TraceDuration > want.TraceDuration {
				rt.Fatalf("duration %s, want between %s and %s", have.TraceDuration, before.TraceDuration, want.TraceDuration)
			}
			want.TraceDuration = have.TraceDuration
			want.TraceDurationStr, want.TraceDurationSec = want.TraceDuration.String(), want.TraceDuration.Seconds()
		}
		if err := staticEqual(have, want); err != nil {
			rt.Fatalf("snapshot: %v", err)
		}
		after := modelStatic(tr, 0)
		if !before.TraceFinished && kind == "core" {
			after.TraceDuration = before.TraceDuration
		}
		if err := staticEqual(before, after); err != nil {
			rt.Fatalf("trace before and after the snapshot: %v", err)
		}
		// Modifying the snapshot doesn't modify the source, either.
		for i := range have.TraceEvents {
			have.TraceEvents[i].What = "modified"
		}
		if err := eventsEqual(tr.Events(), before.TraceEvents); err != nil {
			rt.Fatalf("trace, after the snapshot was modified: %v", err)
		}
	})

	check(t, "modified", "snapshots of traces that are written to and finished at generated points between the reads which make up the snapshot; it has to be that of a single moment: complete if finished, with at most one event if active, and consistent; non-trivial: the trace was modified during the snapshot", 1500, func(rt *rapid.T, k *kase) {
		st, final := readWhileModified(rt, k, trc.NewStreamTrace)
		if st.TraceFinished {
			if err := eventsEqual(st.TraceEvents, stripStacks(final.TraceEvents)); err != nil {
				rt.Fatalf("snapshot of a finished trace: %v", err)
			}
			return
		}
		if len(st.TraceEvents) > 1 {
			rt.Fatalf("snapshot of an active trace has %d events", len(st.TraceEvents))
		}
		for _, ev := range st.TraceEvents {
			found := false
			for _, other := range final.TraceEvents {
				found = found || ev.What == other.What
			}
			if !found {
				rt.Fatalf("snapshot has event %q, which the trace doesn't", ev.What)
			}
		}
	})
}

// ---- C20 ------------------------------------------------------------------

func TestC20(t *testing.T) {
	check(t, "histories", "random histories of subscribing up to 4 channels (again), with contexts of several kinds, also canceled ones, publishing, receiving, canceling, closing channels after Stream returned, and asking for statistics of any channel, compared with a model; non-trivial: a channel is subscribed twice, or again", 300, func(rt *rapid.T, k *kase) {
		broker := trc.NewBroker()
		var streamer trcweb.Streamer = broker
		if rapid.Bool().Draw(rt, "collector") {
			streamer = trc.NewCollector(trc.CollectorConfig{Broker: broker})
		}
		chans := make([]chan trc.Trace, 4)
		for i := range chans {
			chans[i] = make(chan trc.Trace, rapid.SampledFrom([]int{1, 3, 50}).Draw(rt, "cap"))
		}
		subs := map[int]*subscription{}
		defer func() {
			for _, s := range subs {
				s.cancel()
				<-s.done
			}
		}()
		ever, errs := map[int]bool{}, map[int]error{}
		closed := map[int]bool{}
		end := func(i int, cancel func(), want error) {
			s := subs[i]
			cancel()
			finishes(rt, "Stream with a canceled context", func() { <-s.done })
			delete(subs, i)
			if !errors.Is(s.err, want) {
				rt.Fatalf("Stream returned error %v, want %v", s.err, want)
			}
			if s.stats != s.model {
				rt.Fatalf("Stream returned %s, want %s", s.stats, s.model)
			}
			for s.receive(rt) {
			}
		}
		for i, n := 0, rapid.IntRange(3, 30).Draw(rt, "ops"); i < n; i++ {
			c := rapid.IntRange(0, len(chans)-1).Draw(rt, "chan")
			switch op := rapid.IntRange(0, 9).Draw(rt, "op"); op {
			case 0, 1, 2:
				if closed[c] {
					continue
				}
				if s, ok := subs[c]; ok {
					k.notef("subscribe %d twice", c)
					k.interesting(true)
					k.label(true, "already subscribed")
					ctx, cancel := context.WithCancel(bg)
					var st trc.StreamStats
					var err error
					finishes(rt, "Stream with a subscribed channel", func() { st, err = streamer.Stream(ctx, trc.Filter{Category: "none"}, chans[c]) })
					cancel()
					if err == nil {
						rt.Fatalf("Stream with a subscribed channel returned no error")
					}
					if st != (trc.StreamStats{}) {
						rt.Fatalf("Stream with a subscribed channel returned %s", st)
					}
					if s.isDone() {
						rt.Fatalf("subscription ended when its channel was subscribed again")
					}
					continue
				}
				k.interesting(ever[c])
				k.label(ever[c], "subscribed again")
				ever[c] = true
				f := rapid.SampledFrom([]trc.Filter{{}, {}, {Category: "a"}, {IsFinished: true}, {Query: "foo"}}).Draw(rt, "filter")
				errs[c] = context.Canceled
				switch kind := rapid.IntRange(0, 4).Draw(rt, "ctx"); kind {
				case 0: // canceled already
					k.notef("subscribe %d canceled", c)
					ctx, cancel := context.WithCancel(bg)
					cancel()
					var st trc.StreamStats
					var err error
					finishes(rt, "Stream with a canceled context", func() { st, err = streamer.Stream(ctx, f, chans[c]) })
					if !errors.Is(err, context.Canceled) || st != (trc.StreamStats{}) {
						rt.Fatalf("Stream with a canceled context returned %s, %v", st, err)
					}
				case 1: // deadline
					k.notef("subscribe %d deadline", c)
					ctx, cancel := context.WithTimeout(bg, time.Duration(rapid.IntRange(0, 2_000_000).Draw(rt, "timeout")))
					var st trc.StreamStats
					var err error
					finishes(rt, "Stream with a deadline", func() { st, err = streamer.Stream(ctx, f, chans[c]) })
					cancel()
					if !errors.Is(err, context.DeadlineExceeded) || st != (trc.StreamStats{}) {
						rt.Fatalf("Stream with a deadline returned %s, %v", st, err)
					}
				default:
					k.notef("subscribe %d %s", c, showFilter(f))
					s := subscribe(streamer, bg, f, chans[c])
					if s.isDone() {
						rt.Fatalf("Stream returned at once: %v", s.err)
					}
					subs[c] = s
				}
			case 3:
				if s, ok := subs[c]; ok {
					k.notef("cancel %d", c)
					end(c, s.cancel, errs[c])
					if rapid.IntRange(0, 3).Draw(rt, "close") == 0 {
						close(chans[c]) // nothing is sent anymore
						closed[c] = true
					}
				}
			case 4:
				if s, ok := subs[c]; ok {
					s.receive(rt)
				}
			case 5:
				unknown := make(chan trc.Trace, 1)
				if _, err := streamer.StreamStats(bg, unknown); err == nil {
					rt.Fatalf("StreamStats of an unknown channel returned no error")
				}
			default:
				tr, want, after := publishable(rt, filterPools{cats: []string{"a", "b"}}, i)
				k.notef("publish")
				broker.Publish(bg, tr)
				after()
				for _, s := range subs {
					s.publish(want)
				}
			}
			for c, ch := range chans {
				st, err := streamer.StreamStats(bg, ch)
				s, ok := subs[c]
				if ok != (err == nil) {
					rt.Fatalf("channel %d is subscribed: %v, StreamStats returns %v", c, ok, err)
				}
				if ok && st != s.model {
					rt.Fatalf("channel %d: StreamStats %s, want %s", c, st, s.model)
				}
				if ok && len(s.want) != len(ch) {
					rt.Fatalf("channel %d has %d traces, want %d", c, len(ch), len(s.want))
				}
				if !ok && len(ch) > 0 {
					rt.Fatalf("channel %d isn't subscribed, but has a trace", c)
				}
			}
		}
		for c := range chans {
			if s, ok := subs[c]; ok {
				end(c, s.cancel, errs[c])
			}
		}
	})

	check(t, "concurrent", "several goroutines subscribe, cancel, and then close their channels, some of them competing for the same channel, while others publish and read statistics; numbers received agree with final statistics, exactly one competitor is subscribed at any time, and nothing is sent after Stream returned; non-trivial: at least 2 subscribers and publishers", 50, func(rt *rapid.T, k *kase) {
		broker := trc.NewBroker()
		var (
			nsubs  = rapid.IntRange(1, 4).Draw(rt, "subs")
			rounds = rapid.IntRange(1, 15).Draw(rt, "rounds")
			npubs  = rapid.IntRange(1, 3).Draw(rt, "pubs")
			rivals = rapid.IntRange(0, 4).Draw(rt, "rivals")
		)
		k.notef("subs=%d rounds=%d pubs=%d rivals=%d", nsubs, rounds, npubs, rivals)
		k.interesting(nsubs >= 2 && npubs >= 2)
		var (
			stop     atomic.Bool
			holders  atomic.Int64
			wg, pubs sync.WaitGroup
			problems = make(chan string, 100)
		)
		problem := func(format string, args ...any) {
			select {
			case problems <- fmt.Sprintf(format, args...):
			default:
			}
		}
		for p := 0; p < npubs; p++ {
			pubs.Add(1)
			go func(p int) {
				defer pubs.Done()
				for i := 0; !stop.Load(); i++ {
					broker.Publish(bg, &trc.StaticTrace{TraceID: fmt.Sprint(p, i), TraceCategory: []string{"a", "b"}[i%2], TraceFinished: true})
					runtime.Gosched()
				}
			}(p)
		}
		for i := 0; i < nsubs; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for r := 0; r < rounds; r++ {
					s := subscribe(broker, bg, trc.Filter{Category: []string{"", "a"}[i%2]}, make(chan trc.Trace, r%3))
					var have int
					for j := 0; j < r; j++ {
						select {
						case tr := <-s.ch:
							have++
							if i%2 == 1 && tr.Category() != "a" {
								problem("received a trace that doesn't match")
							}
						default:
						}
						runtime.Gosched()
						if _, err := broker.StreamStats(bg, s.ch); err != nil {
							problem("StreamStats: %v", err)
						}
					}
					s.cancel()
					<-s.done
					close(s.ch)
					for range s.ch {
						have++
					}
					if s.stats.Sends != have || !errors.Is(s.err, context.Canceled) {
						problem("received %d traces, Stream returned %s, %v", have, s.stats, s.err)
					}
					if i%2 == 0 && s.stats.Skips > 0 {
						problem("statistics %s without a filter", s.stats)
					}
					if _, err := broker.StreamStats(bg, s.ch); err == nil {
						problem("StreamStats after Stream returned gave no error")
					}
				}
			}(i)
		}
		shared := make(chan trc.Trace)
		for i := 0; i < rivals; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for r := 0; r < rounds; r++ {
					ctx, cancel := context.WithCancel(bg)
					res := make(chan error, 1)
					// Whoever gets the channel holds it until it's canceled.
					go func() {
						_, err := broker.Stream(ctx, trc.Filter{}, shared)
						res <- err
					}()
					select {
					case err := <-res:
						if err == nil || errors.Is(err, context.Canceled) {
							problem("rival's Stream returned %v without being canceled", err)
						}
					case <-time.After(time.Millisecond):
						// May just be slow, so this can't count holders.
						cancel()
						<-res
					}
					cancel()
				}
			}(i)
		}
		finishes(rt, "concurrent subscriptions", func() {
			wg.Wait()
			stop.Store(true)
			pubs.Wait()
		})
		_ = holders.Load()
		select {
		case p := <-problems:
			rt.Fatalf("%s", p)
		default:
		}
		if _, err := broker.StreamStats(bg, shared); err == nil {
			rt.Fatalf("channel is still subscribed")
		}
	})

	check(t, "many", "up to 150 subscribers with channels of all sizes (also unbuffered), with filters, some of which end in between, while others are added; statistics and contents of the channels, also of all others, are compared with a model after each step; non-trivial: at least 10 subscribers, some of which end", 8, func(rt *rapid.T, k *kase) {
		broker := trc.NewBroker()
		var subs []*subscription
		defer func() {
			for _, s := range subs {
				s.cancel()
				<-s.done
			}
		}()
		filters := []trc.Filter{{}, {}, {Category: "a"}, {IsFinished: true}, {IsActive: true}}
		most, ends := 0, 0
		for i, n := 0, rapid.IntRange(2, 10).Draw(rt, "steps"); i < n; i++ {
			switch rapid.IntRange(0, 3).Draw(rt, "step") {
			case 0, 1:
				m := rapid.SampledFrom([]int{1, 3, 10, 30, 70}).Draw(rt, "add")
				for j := 0; j < m && len(subs) < 150; j++ {
					s := subscribe(broker, bg, filters[(i+j)%len(filters)], make(chan trc.Trace, []int{0, 1, 5}[(i*7+j)%3]))
					if s.isDone() {
						rt.Fatalf("Stream returned at once: %v", s.err)
					}
					subs = append(subs, s)
				}
				k.notef("add %d", m)
			default:
				if len(subs) == 0 {
					continue
				}
				m := rapid.IntRange(1, len(subs)).Draw(rt, "end")
				if rapid.Bool().Draw(rt, "few") {
					m = min(m, 3)
				}
				at := rapid.IntRange(0, len(subs)-m).Draw(rt, "at")
				for _, s := range subs[at : at+m] {
					s.stop(rt)
					if !errors.Is(s.err, context.Canceled) || s.stats != s.model {
						rt.Fatalf("Stream returned %s, %v, want %s", s.stats, s.err, s.model)
					}
					for s.receive(rt) {
					}
					if _, err := broker.StreamStats(bg, s.ch); err == nil {
						rt.Fatalf("still subscribed")
					}
				}
				subs = append(subs[:at:at], subs[at+m:]...)
				ends += m
				k.notef("end %d", m)
			}
			most = max(most, len(subs))
			for j, m := 0, rapid.IntRange(0, 3).Draw(rt, "publish"); j < m; j++ {
				tr, want, after := publishable(rt, filterPools{cats: []string{"a", "b"}}, i*10+j)
				broker.Publish(bg, tr)
				after()
				for _, s := range subs {
					s.publish(want)
				}
			}
			for j, s := range subs {
				if s.isDone() {
					rt.Fatalf("subscription %d of %d has ended: %v", j, len(subs), s.err)
				}
				if st, err := broker.StreamStats(bg, s.ch); err != nil || st != s.model {
					rt.Fatalf("subscription %d of %d: StreamStats %s, %v, want %s", j, len(subs), st, err, s.model)
				}
				if len(s.ch) != len(s.want) {
					rt.Fatalf("subscription %d of %d has %d traces, want %d", j, len(subs), len(s.ch), len(s.want))
				}
			}
		}
		k.interesting(most >= 10 && ends > 0)
	})

	check(t, "rivals", "several goroutines call Stream with the same channel at the same time; exactly one of them is subscribed, and all others return an error without being canceled; non-trivial: always", 40, func(rt *rapid.T, k *kase) {
		broker := trc.NewBroker()
		n := rapid.IntRange(2, 8).Draw(rt, "n")
		k.notef("n=%d", n)
		k.interesting(true)
		ch := make(chan trc.Trace, 1)
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		res := make(chan error, n)
		start := make(chan struct{})
		for i := 0; i < n; i++ {
			go func() {
				<-start
				_, err := broker.Stream(ctx, trc.Filter{}, ch)
				res <- err
			}()
		}
		close(start)
		finishes(rt, "Stream with a subscribed channel", func() {
			for i := 0; i < n-1; i++ {
				if err := <-res; err == nil || errors.Is(err, context.Canceled) {
					rt.Errorf("Stream returned %v without being canceled", err)
				}
			}
		})
		if _, err := broker.StreamStats(bg, ch); err != nil {
			rt.Fatalf("none of %d calls is subscribed: %v", n, err)
		}
		broker.Publish(bg, &trc.StaticTrace{TraceID: "x", TraceFinished: true})
		if len(ch) != 1 {
			rt.Fatalf("published trace wasn't sent")
		}
		cancel()
		finishes(rt, "Stream with a canceled context", func() {
			if err := <-res; !errors.Is(err, context.Canceled) {
				rt.Errorf("Stream returned %v, want canceled", err)
			}
		})
	})
}

// ---- C21 ------------------------------------------------------------------

// burstStreamer is a source of traces which waits until they're taken.
type burstStreamer struct {
	traces []trc.Trace
	ended  chan struct{}
}

func (bs *burstStreamer) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error) {
	defer close(bs.ended)
	var stats trc.StreamStats
	for _, tr := range bs.traces {
		select {
		case ch <- tr:
			stats.Sends++
		case <-ctx.Done():
			return stats, ctx.Err()
		}
	}
	<-ctx.Done()
	return stats, ctx.Err()
}

func (bs *burstStreamer) StreamStats(context.Context, chan<- trc.Trace) (trc.StreamStats, error) {
	return trc.StreamStats{}, nil
}

// spyStreamer reports when a subscription begins and ends.
type spyStreamer struct {
	trcweb.Streamer
	mtx     sync.Mutex
	chans   []chan<- trc.Trace
	filters []trc.Filter
	ended   int
	stats   trc.StreamStats
}

func (ss *spyStreamer) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error) {
	ss.mtx.Lock()
	ss.chans = append(ss.chans, ch)
	ss.filters = append(ss.filters, f)
	first := len(ss.chans) == 1
	ss.mtx.Unlock()
	stats, err := ss.Streamer.Stream(ctx, f, ch)
	if first {
		ss.mtx.Lock()
		ss.ended++
		ss.stats = stats
		ss.mtx.Unlock()
	}
	return stats, err
}

// subscribed says if the first subscription has begun.
func (ss *spyStreamer) subscribed() bool {
	ss.mtx.Lock()
	defer ss.mtx.Unlock()
	if len(ss.chans) == 0 {
		return false
	}
	_, err := ss.Streamer.StreamStats(bg, ss.chans[0])
	return err == nil
}

// resubscribed says if a later subscription is active.
func (ss *spyStreamer) resubscribed() bool {
	ss.mtx.Lock()
	defer ss.mtx.Unlock()
	for i := 1; i < len(ss.chans); i++ {
		if _, err := ss.Streamer.StreamStats(bg, ss.chans[i]); err == nil {
			return true
		}
	}
	return false
}

func (ss *spyStreamer) done() bool {
	ss.mtx.Lock()
	defer ss.mtx.Unlock()
	return ss.ended > 0
}

// remoteStream receives an event stream, either with the stream client, or with
// a minimal one of the harness.
type remoteStream struct {
	mtx    sync.Mutex
	traces []*trc.StaticTrace
	types  []string
	inits  []string
	stats  []trc.StreamStats
	last   time.Time
	err    error
	done   chan struct{}
	cancel context.CancelFunc
}

func (rs *remoteStream) onRead(typ string, data []byte) {
	rs.mtx.Lock()
	defer rs.mtx.Unlock()
	rs.types = append(rs.types, typ)
	switch typ {
	case "init":
		rs.inits = append(rs.inits, string(data))
	case "stats":
		var st trc.StreamStats
		if err := json.Unmarshal(data, &st); err != nil {
			rs.err = err
		}
		rs.stats = append(rs.stats, st)
	}
}

func (rs *remoteStream) add(st *trc.StaticTrace) {
	rs.mtx.Lock()
	defer rs.mtx.Unlock()
	rs.traces = append(rs.traces, st)
}

func (rs *remoteStream) count() int {
	rs.mtx.Lock()
	defer rs.mtx.Unlock()
	return len(rs.traces)
}

// rawStream is a minimal client for event streams.
func rawStream(uri string, accept string) *remoteStream {
	ctx, cancel := context.WithCancel(bg)
	rs := &remoteStream{done: make(chan struct{}), cancel: cancel}
	go func() {
		defer close(rs.done)
		req, err := http.NewRequestWithContext(ctx, "GET", uri, nil)
		must(err)
		req.Header.Set("Accept", accept)
		res, err := http.DefaultClient.Do(req)
		if err != nil {
			return
		}
		defer res.Body.Close()
		br := bufio.NewReader(res.Body)
		var typ, data string
		for {
			line, err := br.ReadString('\n')
			if err != nil {
				return
			}
			line = strings.TrimSuffix(line, "\n")
			switch {
			case line == "":
				if typ != "" {
					rs.onRead(typ, []byte(data))
					if typ == "trace" {
						var st trc.StaticTrace
						if err := json.Unmarshal([]byte(data), &st); err != nil {
							rs.mtx.Lock()
							rs.err = fmt.Errorf("trace event %q: %w", data, err)
							rs.mtx.Unlock()
							return
						}
						rs.add(&st)
					}
				}
				typ, data = "", ""
			case strings.HasPrefix(line, "event: "):
				typ = line[len("event: "):]
			case strings.HasPrefix(line, "data: "):
				data += line[len("data: "):]
			}
		}
	}()
	return rs
}

func clientStream(sc *trcweb.StreamClient, f trc.Filter, capacity int) *remoteStream {
	ctx, cancel := context.WithCancel(bg)
	rs := &remoteStream{done: make(chan struct{}), cancel: cancel}
	sc.OnRead = func(_ context.Context, typ string, data []byte) { rs.onRead(typ, data) }
	ch := make(chan trc.Trace, capacity)
	returned := make(chan error, 1)
	go func() { returned <- sc.Stream(ctx, f, ch) }()
	go func() {
		defer close(rs.done)
		for {
			select {
			case tr := <-ch:
				rs.add(tr.(*trc.StaticTrace))
			case err := <-returned:
				for len(ch) > 0 {
					rs.add((<-ch).(*trc.StaticTrace))
				}
				rs.mtx.Lock()
				rs.err = err
				rs.mtx.Unlock()
				return
			}
		}
	}()
	return rs
}

var serverSerial atomic.Int64

// closeServer closes the server. Clients may still (re)connect until its
// listener is closed, and Close waits for their requests, so connections need
// to be closed repeatedly. This is cleaning up, so it isn't judged: a handler
// that's stuck is abandoned.
func closeServer(srv *httptest.Server) {
	closed := make(chan struct{})
	go func() { srv.Close(); close(closed) }()
	for begin := time.Now(); time.Since(begin) < limited(waitLimit); {
		srv.CloseClientConnections()
		select {
		case <-closed:
			return
		case <-time.After(10 * time.Millisecond):
		}
	}
}

// uniqueServer is a test server with a unique base URI, which ignores requests
// to any other one. That's because stream clients may try to reconnect after
// they were canceled, and by then the port may be that of another server.
func uniqueServer(h http.Handler) (srv *httptest.Server, uri string) {
	base := fmt.Sprintf("/s%d", serverSerial.Add(1))
	srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path != base && !strings.HasPrefix(r.URL.Path, base+"/") {
			w.WriteHeader(http.StatusGone)
			return
		}
		h.ServeHTTP(w, r)
	}))
	return srv, srv.URL + base
}

func TestC21(t *testing.T) {
	checkN(t, "differential", "random histories of traces in a collector (with unusual and with long text) are received by a stream client, and by a local subscription with the same generated filter; both get the same traces; then the client is canceled, its Stream returns nil, and the server's subscription ends; non-trivial: at least one trace matches, and there's a filter", 500, 5000, func(rt *rapid.T, k *kase) {
		col := trc.NewCollector(trc.CollectorConfig{Source: "src"})
		spy := &spyStreamer{Streamer: col}
		var handler http.Handler = &trcweb.TraceServer{Collector: col, Streamer: spy}
		traced := rapid.Bool().Draw(rt, "traced")
		if traced {
			handler = trcweb.Middleware(col.NewTrace, trcweb.Categorize)(handler)
		}
		srv, uri := uniqueServer(handler)
		defer closeServer(srv)
		pools := filterPools{sources: []string{"src"}, cats: []string{"a", "b"}}
		f := genStreamFilter(rt, pools)
		if rapid.Bool().Draw(rt, "loose") {
			f.Category, f.MinDuration = "", nil
		}
		capacity := rapid.SampledFrom([]int{0, 10, 1000}).Draw(rt, "cap")
		k.notef("%s traced=%v", showFilter(f), traced)

		sc := trcweb.NewStreamClient(uri)
		sc.SendBuffer = rapid.SampledFrom([]int{1, 50, 99, 100, 101, 5000, 99999, 100000}).Draw(rt, "sendbuf")
		if rapid.Bool().Draw(rt, "large buffer") {
			sc.SendBuffer = 100000
		}
		wantBuf := sc.SendBuffer
		sc.RetryInterval = time.Second
		remote := clientStream(sc, copyFilter(f), capacity)
		defer remote.cancel()
		if !eventually(waitLimit, spy.subscribed) {
			remote.mtx.Lock()
			defer remote.mtx.Unlock()
			if remote.err != nil {
				rt.Fatalf("stream client: %v", remote.err)
			}
			rt.Fatalf("the server didn't subscribe")
		}
		local := subscribe(col, bg, f, make(chan trc.Trace, 10000))
		defer func() { local.cancel(); <-local.done }()

		var active []trc.Trace
		made := map[string]bool{}
		steps := 0
		for i, n := 0, rapid.IntRange(1, 25).Draw(rt, "ops"); i < n; i++ {
			op := rapid.IntRange(0, 9).Draw(rt, "op")
			if op < 2 || len(active) == 0 {
				_, tr := col.NewTrace(bg, rapid.SampledFrom(append(genCats(rt), "a", "b", "stream", "traces")).Draw(rt, "cat"))
				active = append(active, tr)
				made[tr.ID()] = true
				steps++
				continue
			}
			j := rapid.IntRange(0, len(active)-1).Draw(rt, "which")
			if op == 2 {
				active[j].Finish()
				active = append(active[:j], active[j+1:]...)
			} else {
				c := genCallW(true).Draw(rt, "call")
				if rapid.IntRange(0, 19).Draw(rt, "long") == 0 {
					c.format += strings.Repeat("long ", rapid.IntRange(100, 20000).Draw(rt, "n"))
				}
				k.notef("%s", clip(c.String()))
				c.apply(active[j])
				if sometimes(rt, "burst") {
					for l, n := 0, rapid.SampledFrom([]int{20, 70, 130, 300}).Draw(rt, "n"); l < n; l++ {
						active[j].LazyTracef("burst %d", l)
						steps++
					}
				}
			}
			steps++
		}
		var want []*trc.StaticTrace
		for len(local.ch) > 0 {
			st := (<-local.ch).(*trc.StaticTrace)
			if !made[st.TraceID] { // the server's own
				continue
			}
			want = append(want, st)
		}
		if wantBuf < steps || wantBuf < 1000 && traced { // may have overflowed
			want = nil
		}
		k.label(len(want) > 0 && len(want) < steps, "some match")
		k.interesting(len(want) > 0 && showFilter(f) != showFilter(trc.Filter{}))
		if !eventually(waitLimit, func() bool { return remote.count() >= len(want) }) {
			rt.Fatalf("client received %d traces, want %d", remote.count(), len(want))
		}
		inits := func() []string {
			remote.mtx.Lock()
			defer remote.mtx.Unlock()
			return remote.inits
		}
		if !eventually(waitLimit, func() bool { return len(inits()) > 0 }) {
			rt.Fatalf("client received no init event")
		}
		time.Sleep(2 * time.Millisecond) // for any extra ones
		remote.mtx.Lock()
		have := append([]*trc.StaticTrace(nil), remote.traces...)
		remote.mtx.Unlock()
		if err := tracesEqual(have, want); err != nil && want != nil {
			rt.Fatalf("traces received remotely, and locally: %v", err)
		}
		remote.cancel()
		if !eventually(waitLimit, spy.done) {
			rt.Fatalf("the server's subscription hasn't ended after the client was canceled")
		}
		finishes(rt, "Stream of a canceled stream client", func() { <-remote.done })
		if remote.err != nil {
			rt.Fatalf("canceled stream client returned %v", remote.err)
		}
		for _, s := range inits() {
			var init struct {
				Filter  trc.Filter `json:"filter"`
				SendBuf int        `json:"sendbuf"`
			}
			if err := json.Unmarshal([]byte(s), &init); err != nil {
				rt.Fatalf("init event %s: %v", s, err)
			}
			if err := filterEqual(init.Filter, f); err != nil || init.SendBuf != wantBuf {
				rt.Fatalf("init event %s, want filter %s and buffer %d (%v)", s, showFilter(f), wantBuf, err)
			}
		}
		if n := len(inits()); n != 1 {
			rt.Fatalf("%d init events", n)
		}
	})

	checkN(t, "events", "event streams with generated filters, send buffers and stats intervals, read with a minimal client: there's exactly one init event with filter and buffer, statistics come at most as often as requested, and finally agree with what was published, also with what was received; when the client goes away, the server's subscription ends; non-trivial: always", 400, 4000, func(rt *rapid.T, k *kase) {
		broker := trc.NewBroker()
		spy := &spyStreamer{Streamer: broker}
		col := trc.NewDefaultCollector()
		server, uri := uniqueServer(&trcweb.TraceServer{Collector: col, Streamer: spy})
		defer closeServer(server)
		ps, req := genParams(rt, filterPools{cats: []string{"a", "b"}}, true)
		f := req.Filter
		if !validRegexp(f.Query) {
			f.Query = ""
			var rest []param
			for _, p := range ps {
				if p.key != "q" {
					rest = append(rest, p)
				}
			}
			ps = rest
		}
		sendbuf := rapid.SampledFrom([]int{50, 100, 500, 100000}).Draw(rt, "sendbuf")
		interval := time.Duration(rapid.IntRange(2, 15).Draw(rt, "interval")) * time.Millisecond
		ps = append(ps, param{"stats", interval.String()})
		if sendbuf != 100 {
			ps = append(ps, param{"sendbuf", fmt.Sprint(sendbuf)})
		}
		rawquery := encodeParams(rt, ps)
		k.notef("?%s", rawquery)
		k.interesting(true)
		begin := time.Now()
		rs := rawStream(uri+"/?"+rawquery, rapid.SampledFrom([]string{"text/event-stream", "text/html, text/event-stream;q=0.9"}).Draw(rt, "accept"))
		defer rs.cancel()
		if !eventually(waitLimit, spy.subscribed) {
			select {
			case <-rs.done:
				rt.Fatalf("the stream ended")
			default:
				rt.Fatalf("the server didn't subscribe")
			}
		}
		// For comparison, subject to the same delays.
		ticks, ticker := 0, time.NewTicker(interval)
		stopTicks, ticksDone := make(chan struct{}), make(chan struct{})
		go func() {
			defer close(ticksDone)
			for {
				select {
				case <-ticker.C:
					ticks++
				case <-stopTicks:
					return
				}
			}
		}()
		stop := sync.OnceFunc(func() { ticker.Stop(); close(stopTicks); <-ticksDone })
		defer stop()
		model := &subscription{filter: f, ch: make(chan trc.Trace, 1000)}
		for i, n := 0, rapid.IntRange(0, 20).Draw(rt, "n"); i < n; i++ {
			tr, want, after := publishable(rt, filterPools{cats: []string{"a", "b"}}, i)
			broker.Publish(bg, tr)
			after()
			model.publish(want)
		}
		k.label(model.model.Sends > 0, "some match")
		latest := func() trc.StreamStats {
			rs.mtx.Lock()
			defer rs.mtx.Unlock()
			if len(rs.stats) == 0 {
				return trc.StreamStats{Skips: -1}
			}
			return rs.stats[len(rs.stats)-1]
		}
		if !eventually(waitLimit, func() bool { return latest() == model.model && rs.count() >= model.model.Sends }) {
			rt.Fatalf("statistics are %s, and %d traces were received, want %s", latest(), rs.count(), model.model)
		}
		rs.cancel()
		if !eventually(waitLimit, spy.done) {
			rt.Fatalf("the server's subscription hasn't ended after the client went away")
		}
		elapsed := time.Since(begin)
		stop()
		finishes(rt, "HTTP client", func() { <-rs.done })
		rs.mtx.Lock()
		defer rs.mtx.Unlock()
		if err := tracesEqual(rs.traces, model.want); err != nil {
			rt.Fatalf("received traces: %v", err)
		}
		if n := len(rs.stats); n > int(elapsed/interval)+1 {
			rt.Fatalf("%d statistics in %s, with interval %s", n, elapsed, interval)
		}
		if n := len(rs.stats); n < ticks/20-5 {
			rt.Fatalf("just %d statistics in %s, with interval %s", n, elapsed, interval)
		}
		if len(rs.inits) != 1 {
			rt.Fatalf("%d init events", len(rs.inits))
		}
		var init struct {
			Filter  trc.Filter `json:"filter"`
			SendBuf int        `json:"sendbuf"`
		}
		if err := json.Unmarshal([]byte(rs.inits[0]), &init); err != nil {
			rt.Fatalf("init event %s: %v", rs.inits[0], err)
		}
		if err := filterEqual(init.Filter, f); err != nil || init.SendBuf != sendbuf {
			rt.Fatalf("init event %s, want filter %s and buffer %d (%v)", rs.inits[0], showFilter(f), sendbuf, err)
		}
		if spy.stats != model.model {
			rt.Fatalf("the server's Stream returned %s, want %s", spy.stats, model.model)
		}
	})
	checkN(t, "bursts", "a server whose source of traces waits until they're taken sends generated traces (up to 2500 events each) with all kinds of send buffers, to the stream client, or to a minimal one; all of them arrive, in order, with all their contents; non-trivial: at least 10 traces, or one with more than 500 events", 150, 2000, func(rt *rapid.T, k *kase) {
		bs := &burstStreamer{ended: make(chan struct{})}
		var want []*trc.StaticTrace
		events := 0
		for i, n := 0, rapid.SampledFrom([]int{1, 3, 12, 60, 250}).Draw(rt, "n"); i < n; i++ {
			var st *trc.StaticTrace
			switch {
			case i < 10:
				st = genStatic().Draw(rt, "trace")
				if i == 0 && rapid.IntRange(0, 2).Draw(rt, "large?") == 0 {
					st.TraceEvents = nil
					for j, n := 0, rapid.SampledFrom([]int{500, 501, 1000, 1001, 2500}).Draw(rt, "events"); j < n; j++ {
						st.TraceEvents = append(st.TraceEvents, trc.Event{When: baseTime.Add(time.Duration(j)), What: fmt.Sprintf("event %d", j), IsError: j%7 == 3})
					}
				}
			default:
				st = &trc.StaticTrace{TraceSource: "src", TraceCategory: "cat", TraceStarted: baseTime, TraceFinished: i%2 == 0}
			}
			st.TraceID = fmt.Sprintf("T%d", i)
			if i < 10 && rapid.IntRange(0, 9).Draw(rt, "noid") == 0 {
				st.TraceID = ""
			}
			events = max(events, len(st.TraceEvents))
			want = append(want, st)
			bs.traces = append(bs.traces, copyStatic(st))
		}
		sendbuf := rapid.SampledFrom([]int{1, 2, 3, 5, 50, 100, 1000}).Draw(rt, "sendbuf")
		raw := rapid.Bool().Draw(rt, "raw")
		k.notef("%d traces, up to %d events, sendbuf=%d raw=%v", len(want), events, sendbuf, raw)
		k.interesting(len(want) >= 10 || events > 500)
		srv, uri := uniqueServer(&trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Streamer: bs})
		defer closeServer(srv)
		var rs *remoteStream
		if raw {
			if rapid.Bool().Draw(rt, "unbuffered") {
				sendbuf = 0
			}
			rs = rawStream(fmt.Sprintf("%s?sendbuf=%d", uri, sendbuf), "text/event-stream")
		} else {
			sc := trcweb.NewStreamClient(uri)
			sc.SendBuffer = sendbuf
			rs = clientStream(sc, trc.Filter{}, rapid.SampledFrom([]int{0, 1, 100}).Draw(rt, "cap"))
		}
		defer rs.cancel()
		if !eventually(waitLimit, func() bool { return rs.count() >= len(want) }) {
			rt.Fatalf("client received %d traces, want %d", rs.count(), len(want))
		}
		rs.cancel()
		finishes(rt, "client", func() { <-rs.done; <-bs.ended })
		rs.mtx.Lock()
		defer rs.mtx.Unlock()
		if rs.err != nil {
			rt.Fatalf("client: %v", rs.err)
		}
		if raw {
			var init struct {
				SendBuf *int `json:"sendbuf"`
			}
			if len(rs.inits) != 1 || json.Unmarshal([]byte(rs.inits[0]), &init) != nil || init.SendBuf == nil || *init.SendBuf != sendbuf {
				rt.Fatalf("init events %q, want a send buffer of %d", rs.inits, sendbuf)
			}
		}
		if err := tracesEqual(rs.traces, want); err != nil {
			rt.Fatalf("traces received remotely: %v", err)
		}
	})

	checkN(t, "slow", "stream clients whose receivers pause for up to 4 seconds between traces, with a server whose source of traces waits until they're taken; all of them arrive; non-trivial: always", 1, 15, func(rt *rapid.T, k *kase) {
		k.interesting(true)
		var wg sync.WaitGroup
		var mtx sync.Mutex
		var problems []string
		for i, n := 0, rapid.IntRange(10, 30).Draw(rt, "clients"); i < n; i++ {
			bs := &burstStreamer{ended: make(chan struct{})}
			for j, n := 0, rapid.IntRange(2, 8).Draw(rt, "n"); j < n; j++ {
				bs.traces = append(bs.traces, &trc.StaticTrace{TraceID: fmt.Sprintf("T%d", j), TraceStarted: baseTime})
			}
			at := rapid.IntRange(0, len(bs.traces)-1).Draw(rt, "at")
			pause := time.Duration(rapid.IntRange(0, 4000).Draw(rt, "pause")) * time.Millisecond
			retry := time.Duration(rapid.IntRange(0, 3).Draw(rt, "retry")) * time.Second
			sendbuf := rapid.SampledFrom([]int{1, 2, 100}).Draw(rt, "sendbuf")
			ch := make(chan trc.Trace, rapid.SampledFrom([]int{0, 0, 1}).Draw(rt, "cap"))
			k.notef("pause %s at %d of %d, retry %s, sendbuf %d, cap %d", pause, at, len(bs.traces), retry, sendbuf, cap(ch))
			wg.Add(1)
			go func() {
				defer wg.Done()
				srv, uri := uniqueServer(&trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Streamer: bs})
				defer closeServer(srv)
				sc := trcweb.NewStreamClient(uri)
				sc.RetryInterval, sc.SendBuffer, sc.StatsInterval = retry, sendbuf, time.Second
				ctx, cancel := context.WithCancel(bg)
				defer cancel()
				returned := make(chan error, 1)
				go func() { returned <- sc.Stream(ctx, trc.Filter{}, ch) }()
				problem := func(format string, args ...any) {
					mtx.Lock()
					defer mtx.Unlock()
					problems = append(problems, fmt.Sprintf(format, args...))
				}
				for j, want := range bs.traces {
					if j == at {
						time.Sleep(pause)
					}
					select {
					case have := <-ch:
						if have.ID() != want.ID() {
							problem("client %d, which paused for %s before trace %d, received %s, want %s", i, pause, at, have.ID(), want.ID())
							return
						}
					case err := <-returned:
						problem("client %d: %v", i, err)
						return
					case <-time.After(limited(waitLimit)):
						problem("client %d, which paused for %s before trace %d, hasn't received %s", i, pause, at, want.ID())
						return
					}
				}
			}()
		}
		wg.Wait()
		if len(problems) > 0 {
			rt.Fatalf("%s", strings.Join(problems, "\n"))
		}
	})

	checkN(t, "cancel", "stream clients are canceled at a generated point: before the server has answered, with or without headers, after a number of traces were received, or weren't, and after the stream has failed with an event that's invalid; Stream returns, without an error if it was canceled, and the server's handler and subscription end, although the server's side doesn't do anything; non-trivial: the server hadn't answered, or traces weren't received", 300, 4000, func(rt *rapid.T, k *kase) {
		col := trc.NewCollector(trc.CollectorConfig{Source: "src"})
		spy := &spyStreamer{Streamer: col}
		server := &trcweb.TraceServer{Collector: col, Streamer: spy}
		point := rapid.SampledFrom([]string{"no answer", "slow answer", "header", "begin", "received", "unreceived", "invalid"}).Draw(rt, "point")
		delay := time.Duration(rapid.SampledFrom([]int{0, 100, 1000, 5000}).Draw(rt, "delay")) * time.Microsecond
		traces := rapid.IntRange(1, 5).Draw(rt, "traces")
		k.notef("%s, delay %s, %d traces", point, delay, traces)
		k.interesting(point == "no answer" || point == "slow answer" || point == "unreceived")
		var begun, ended atomic.Int64
		canceled := make(chan struct{})
		srv, uri := uniqueServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			begun.Add(1)
			defer ended.Add(1)
			switch point {
			case "no answer":
				<-r.Context().Done()
				return
			case "slow answer": // overtaken by the cancelation
				<-canceled
				time.Sleep(delay)
			case "header":
				w.Header().Set("content-type", "text/event-stream")
				w.WriteHeader(200)
				w.(http.Flusher).Flush()
				<-r.Context().Done()
				return
			case "invalid":
				w.Header().Set("content-type", "text/event-stream")
				fmt.Fprintf(w, "event: %s\ndata: {\n\n", []string{"trace", "stats"}[traces%2])
				w.(http.Flusher).Flush()
				<-r.Context().Done()
				return
			}
			server.ServeHTTP(w, r)
		}))
		defer closeServer(srv)
		sc := trcweb.NewStreamClient(uri)
		sc.RetryInterval = time.Second
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		ch := make(chan trc.Trace)
		returned := make(chan error, 1)
		go func() { returned <- sc.Stream(ctx, trc.Filter{}, ch) }()
		if !eventually(waitLimit, func() bool { return begun.Load() > 0 }) {
			rt.Fatalf("the client hasn't connected")
		}
		if point == "received" || point == "unreceived" {
			if !eventually(waitLimit, spy.subscribed) {
				rt.Fatalf("the server didn't subscribe")
			}
			for i := 0; i < traces; i++ {
				col.NewTrace(bg, "cat")
			}
		}
		if point == "received" {
			for i := 0; i < traces; i++ {
				finishes(rt, "receiving a trace", func() { <-ch })
			}
		}
		if point != "invalid" {
			time.Sleep(delay)
			cancel()
		}
		close(canceled)
		var err error
		finishes(rt, "Stream at "+point, func() { err = <-returned })
		if (err != nil) != (point == "invalid") {
			rt.Fatalf("at %s, Stream returned %v", point, err)
		}
		if !eventually(waitLimit, func() bool { return ended.Load() == begun.Load() }) {
			rt.Fatalf("at %s, Stream has returned, but %d requests of %d to the server haven't ended", point, begun.Load()-ended.Load(), begun.Load())
		}
		spy.mtx.Lock()
		defer spy.mtx.Unlock()
		for _, ch := range spy.chans {
			if stats, err := col.StreamStats(bg, ch); err == nil {
				rt.Fatalf("at %s, still subscribed: %s", point, stats)
			}
		}
	})
}
