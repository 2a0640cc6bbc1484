package harness

import (
	"context"
	"fmt"
	"io"
	"log"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"pgregory.net/rapid"
)

// humanizedOK says if s is a human-friendly form of a duration between lo and
// hi, which may be rounded down by up to 10%.
func humanizedOK(s string, lo, hi time.Duration) error {
	d, err := time.ParseDuration(s)
	if err != nil {
		return err
	}
	if lo = lo*9/10 - time.Microsecond; d < lo || d > hi {
		return fmt.Errorf("duration %s isn't between %s and %s", s, lo, hi)
	}
	return nil
}

// ---- C22 ------------------------------------------------------------------

type ctxKey int

func TestC22(t *testing.T) {
	check(t, "trees", "random trees of contexts, derived in ten ways (values, cancelation, deadlines, Put, New, NewTrace of two collectors, Prefix, Region); Get, MaybeGet and NewTrace on any of them, in any order, are compared with a model of which trace each context has, and each trace's events and the collectors' contents with models of those; non-trivial: at least 2 different traces and 3 contexts", 1000, func(rt *rapid.T, k *kase) {
		type base struct { // an original trace
			id       string
			events   []wantEvent
			finished bool
		}
		type node struct {
			ctx    context.Context
			tr     trc.Trace // nil: none
			b      *base
			prefix string
		}
		cols := []*trc.Collector{trc.NewCollector(trc.CollectorConfig{Source: "s0"}), trc.NewCollector(trc.CollectorConfig{Source: "s1", Decorators: []trc.DecoratorFunc{trc.LogDecorator(io.Discard)}})}
		contents := make([]map[string]string, 2)
		for i := range contents {
			contents[i] = map[string]string{}
		}
		nodes := []*node{{ctx: bg}}
		var bases []*base
		handles := map[*base]trc.Trace{}
		seen := map[string]bool{}
		newBase := func(tr trc.Trace) *base {
			if seen[tr.ID()] {
				rt.Fatalf("new trace has the ID of an existing one")
			}
			seen[tr.ID()] = true
			b := &base{id: tr.ID()}
			if tr.Finished() || tr.Errored() || len(tr.Events()) > 0 {
				rt.Fatalf("new trace isn't pristine")
			}
			bases = append(bases, b)
			handles[b] = tr
			return b
		}
		verify := func(n *node) {
			tr, ok := trc.MaybeGet(n.ctx)
			if ok != (n.tr != nil) {
				rt.Fatalf("MaybeGet returned %v, want %v", ok, n.tr != nil)
			}
			if ok && tr != n.tr {
				rt.Fatalf("MaybeGet returned a different trace")
			}
			if !ok && tr != nil {
				rt.Fatalf("MaybeGet returned a trace, and false")
			}
			got := trc.Get(n.ctx)
			if n.tr != nil {
				if got != n.tr || got.ID() != n.b.id {
					rt.Fatalf("Get returned a different trace")
				}
				return
			}
			if got == nil {
				rt.Fatalf("Get returned nil")
			}
			if got.Category() != "(orphan)" || seen[got.ID()] || len(got.Events()) > 0 || got.Finished() || got.Errored() {
				rt.Fatalf("orphan has category %q, %d events, new ID %v", got.Category(), len(got.Events()), !seen[got.ID()])
			}
			seen[got.ID()] = true
			got.Tracef("x %d", 1)
			got.LazyErrorf("y")
			got.Finish()
			got.Tracef("z")
			if err := eventsMatch(got.Events(), []wantEvent{{"x 1", false}, {"y", true}}); err != nil || !got.Errored() || !got.Finished() {
				rt.Fatalf("orphan doesn't work: %v", err)
			}
			if _, ok := trc.MaybeGet(n.ctx); ok {
				rt.Fatalf("context has a trace after Get")
			}
		}
		for i, nops := 0, rapid.IntRange(3, 30).Draw(rt, "ops"); i < nops; i++ {
			p := nodes[rapid.IntRange(0, len(nodes)-1).Draw(rt, "parent")]
			switch op := rapid.IntRange(0, 13).Draw(rt, "op"); op {
			case 0:
				nodes = append(nodes, &node{context.WithValue(p.ctx, ctxKey(i), "trace"), p.tr, p.b, p.prefix})
				k.notef("value")
			case 1:
				ctx, cancel := context.WithCancel(p.ctx)
				if rapid.Bool().Draw(rt, "cancel") {
					cancel()
				}
				defer cancel()
				nodes = append(nodes, &node{ctx, p.tr, p.b, p.prefix})
				k.notef("cancel")
			case 2:
				ctx, cancel := context.WithTimeout(p.ctx, time.Duration(rapid.IntRange(0, 2).Draw(rt, "timeout"))*time.Hour)
				defer cancel()
				nodes = append(nodes, &node{ctx, p.tr, p.b, p.prefix})
				k.notef("timeout")
			case 3:
				nodes = append(nodes, &node{context.WithoutCancel(p.ctx), p.tr, p.b, p.prefix})
				k.notef("without")
			case 4: // put any known trace
				q := nodes[rapid.IntRange(0, len(nodes)-1).Draw(rt, "other")]
				if q.tr == nil {
					continue
				}
				ctx, tr := trc.Put(p.ctx, q.tr)
				if tr != q.tr {
					rt.Fatalf("Put returned a different trace")
				}
				nodes = append(nodes, &node{ctx, q.tr, q.b, q.prefix})
				k.notef("put")
			case 5:
				src, cat := genName().Draw(rt, "src"), genName().Draw(rt, "cat")
				ctx, tr := trc.New(p.ctx, src, cat)
				if tr.Source() != src || tr.Category() != cat {
					rt.Fatalf("New(%q, %q) has source %q, category %q", src, cat, tr.Source(), tr.Category())
				}
				nodes = append(nodes, &node{ctx, tr, newBase(tr), ""})
				k.notef("new %q %q", src, cat)
			case 6, 7, 8:
				c := rapid.IntRange(0, 1).Draw(rt, "collector")
				cat := genName().Draw(rt, "cat")
				ctx, tr := cols[c].NewTrace(p.ctx, cat)
				k.notef("newtrace %d %q", c, cat)
				if p.tr != nil {
					k.label(true, "NewTrace with existing trace")
					if ctx != p.ctx || tr != p.tr {
						rt.Fatalf("NewTrace with an existing trace returned a different context or trace")
					}
					if !p.b.finished {
						p.b.events = append(p.b.events, wantEvent{p.prefix + "(+ " + cat + ")", false})
					}
					break
				}
				if tr.Source() != fmt.Sprint("s", c) || tr.Category() != cat {
					rt.Fatalf("NewTrace(%q) has source %q, category %q", cat, tr.Source(), tr.Category())
				}
				contents[c][tr.ID()] = cat
				nodes = append(nodes, &node{ctx, tr, newBase(tr), ""})
			case 9:
				if strings.Count(p.prefix, " ") > 4 {
					continue
				}
				w := genWord().Draw(rt, "prefix")
				ctx, tr := trc.Prefix(p.ctx, w)
				n := &node{ctx, tr, p.b, p.prefix + w + " "}
				if p.tr == nil {
					n.b = newBase(tr)
				}
				nodes = append(nodes, n)
				k.notef("prefix")
			case 10:
				if strings.Count(p.prefix, " ") > 4 || p.tr == nil {
					continue
				}
				ctx, tr, finish := trc.Region(p.ctx, "r")
				_ = finish
				if !p.b.finished {
					p.b.events = append(p.b.events, wantEvent{p.prefix + "→ r", false})
				}
				nodes = append(nodes, &node{ctx, tr, p.b, p.prefix + "· "})
				k.notef("region")
			case 11, 12:
				if p.tr == nil {
					continue
				}
				c := genCallW(true).Draw(rt, "call")
				c.apply(trc.Get(p.ctx))
				if !p.b.finished {
					p.b.events = append(p.b.events, wantEvent{p.prefix + c.text(), c.iserr})
				}
			case 13:
				if p.tr != nil && rapid.IntRange(0, 2).Draw(rt, "finish") == 0 {
					trc.Get(p.ctx).Finish()
					p.b.finished = true
				}
			}
			for _, n := range nodes {
				verify(n)
			}
		}
		for _, b := range bases {
			tr := handles[b]
			if err := eventsMatch(tr.Events(), b.events); err != nil {
				rt.Fatalf("trace %q: %v", tr.Category(), err)
			}
			if tr.Finished() != b.finished || tr.ID() != b.id {
				rt.Fatalf("trace %q: finished %v, want %v", tr.Category(), tr.Finished(), b.finished)
			}
		}
		for c := range cols {
			res, err := cols[c].Search(bg, &trc.SearchRequest{Limit: 250})
			if err != nil {
				rt.Fatalf("search: %v", err)
			}
			have := map[string]string{}
			for _, st := range res.Traces {
				have[st.TraceID] = st.TraceCategory
			}
			if fmt.Sprint(have) != fmt.Sprint(contents[c]) || res.TotalCount != len(contents[c]) {
				rt.Fatalf("collector has %v (%d), want %v", have, res.TotalCount, contents[c])
			}
		}
		k.interesting(len(bases) >= 2 && len(nodes) >= 3)
	})
}

// ---- C23 ------------------------------------------------------------------

func TestC23(t *testing.T) {
	check(t, "nesting", "random trees of prefixes (formats, args with spare capacity, whitespace, empty ones) and regions (any name) on a trace made in one of seven ways, with events made on any of them, before, after and in between, regions finished in any order, and occasional reads; texts are compared with a model; non-trivial: at least 2 prefixes or regions are nested", 1000, func(rt *rapid.T, k *kase) {
		kind := rapid.SampledFrom(makerKinds).Draw(rt, "kind")
		m := makeTrace(kind, "src", "cat")
		defer m.cancel()
		type region struct {
			name       string
			parent     int
			finish     func()
			begin, end time.Time // before and after the call to Region
		}
		type node struct {
			ctx    context.Context
			tr     trc.Trace
			prefix string
			depth  int
		}
		type want struct {
			wantEvent
			lo, hi time.Duration // of a finished region
			timed  bool
		}
		var (
			nodes   = []*node{{m.ctx, m.tr, "", 0}}
			regions []*region
			wants   []want
			pending = 0 // events that weren't read yet
		)
		verify := func() {
			have := m.tr.Events()
			if len(have) != len(wants) {
				rt.Fatalf("%d events, want %d", len(have), len(wants))
			}
			for i, w := range wants {
				what := have[i].What
				if w.timed {
					cut := strings.LastIndex(what, " [")
					if cut < 0 || !strings.HasSuffix(what, "]") {
						rt.Fatalf("event %d is %q, without a duration", i, what)
					}
					if err := humanizedOK(what[cut+2:len(what)-1], w.lo, w.hi); err != nil {
						rt.Fatalf("event %d is %q: %v", i, what, err)
					}
					what = what[:cut]
				}
				if what != w.what || have[i].IsError != w.iserr {
					rt.Fatalf("event %d is %q, error %v, want %q, error %v", i, what, have[i].IsError, w.what, w.iserr)
				}
			}
			pending = 0
		}
		maxDepth := 0
		for i, nops := 0, rapid.IntRange(2, 25).Draw(rt, "ops"); i < nops; i++ {
			j := rapid.IntRange(0, len(nodes)-1).Draw(rt, "node")
			p := nodes[j]
			switch op := rapid.IntRange(0, 9).Draw(rt, "op"); op {
			case 0, 1:
				if p.depth >= 6 {
					continue
				}
				c := genFmt(true).Draw(rt, "fmt")
				space := rapid.SampledFrom([]string{"", "", " ", "  ", "\t", "\n"})
				format := space.Draw(rt, "left") + c.format + space.Draw(rt, "right")
				args := make([]any, 0, len(c.args)+rapid.IntRange(0, 3).Draw(rt, "spare"))
				args = append(args, c.args...)
				ctx, tr := trc.Prefix(p.ctx, format, args...)
				k.notef("prefix %d %q %v", j, format, args)
				n := &node{ctx, tr, p.prefix, p.depth}
				if trimmed := strings.TrimSpace(format); trimmed != "" {
					n.prefix += fmt.Sprintf(trimmed, args...) + " "
					n.depth++
				} else {
					k.label(true, "empty prefix")
				}
				if got, ok := trc.MaybeGet(ctx); !ok || got != tr {
					rt.Fatalf("the prefixed trace isn't in the context")
				}
				nodes = append(nodes, n)
				maxDepth = max(maxDepth, n.depth)
			case 2:
				if p.depth >= 6 {
					continue
				}
				name := genText().Draw(rt, "name")
				k.notef("region %d %q", j, name)
				r := &region{name: name, parent: j, begin: time.Now()}
				ctx, tr, finish := trc.Region(p.ctx, name)
				r.end, r.finish = time.Now(), finish
				wants = append(wants, want{wantEvent: wantEvent{p.prefix + "→ " + name, false}})
				pending++
				regions = append(regions, r)
				nodes = append(nodes, &node{ctx, tr, p.prefix + "· ", p.depth + 1})
				maxDepth = max(maxDepth, p.depth+1)
			case 3:
				if len(regions) == 0 {
					continue
				}
				x := rapid.IntRange(0, len(regions)-1).Draw(rt, "region")
				r := regions[x]
				regions = append(regions[:x], regions[x+1:]...)
				before := time.Now()
				r.finish()
				after := time.Now()
				k.notef("finish %q", r.name)
				wants = append(wants, want{wantEvent{nodes[r.parent].prefix + "← " + r.name, false}, before.Sub(r.end), after.Sub(r.begin), true})
				pending++
			case 4:
				verify()
			default:
				c := genCallW(true).Draw(rt, "call")
				k.notef("%d %s", j, c)
				c.apply(p.tr)
				wants = append(wants, want{wantEvent: wantEvent{p.prefix + c.text(), c.iserr}})
				pending++
			}
		}
		for _, n := range nodes {
			if n.tr.ID() != m.tr.ID() || n.tr.Category() != m.tr.Category() || n.tr.Source() != m.tr.Source() || n.tr.Errored() != m.tr.Errored() || n.tr.Finished() || len(n.tr.Events()) != len(wants) {
				rt.Fatalf("a prefixed trace differs from the original")
			}
		}
		verify()
		nodes[len(nodes)-1].tr.Finish()
		if !m.tr.Finished() {
			rt.Fatalf("finishing the prefixed trace doesn't finish the original")
		}
		verify()
		k.label(maxDepth >= 4, "nested 4 deep")
		k.interesting(maxDepth >= 2)
	})

	check(t, "evaluation", "args of prefixes that change over time, and slices of args that are shared between prefixes and events: a normal event has their values from when it was made, a lazy event those from when it was first read, for all of the enclosing prefixes; non-trivial: at least 2 events", 500, func(rt *rapid.T, k *kase) {
		m := makeTrace(rapid.SampledFrom([]string{"core", "collector", "collector+log"}).Draw(rt, "kind"), "src", "cat")
		defer m.cancel()
		type pre struct{ arg *mutable }
		var (
			nodes  = []trc.Trace{m.tr}
			args   = [][]*mutable{nil}
			ctx    = m.ctx
			wants  []func() string
			values = 0
		)
		for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "depth"); i < n; i++ {
			a := newMutable(fmt.Sprint("v", values))
			values++
			var tr trc.Trace
			slice := append(make([]any, 0, 4), a)
			ctx, tr = trc.Prefix(ctx, "%s", slice...)
			nodes = append(nodes, tr)
			args = append(args, append(append([]*mutable{}, args[i]...), a))
		}
		text := func(as []*mutable, own string) string {
			var res []string
			for _, a := range as {
				res = append(res, a.val.Load().(string))
			}
			return strings.Join(append(res, own), " ")
		}
		n := rapid.IntRange(1, 10).Draw(rt, "events")
		for i := 0; i < n; i++ {
			j := rapid.IntRange(0, len(nodes)-1).Draw(rt, "node")
			lazy := rapid.Bool().Draw(rt, "lazy")
			own := fmt.Sprint("own", i)
			k.notef("%d lazy=%v", j, lazy)
			call{lazy: lazy, iserr: i%3 == 0, format: "%s", args: []any{own}}.apply(nodes[j])
			if lazy {
				as := args[j]
				wants = append(wants, func() string { return text(as, own) })
			} else {
				s := text(args[j], own)
				wants = append(wants, func() string { return s })
			}
			if len(args[j]) > 0 && rapid.Bool().Draw(rt, "change") {
				args[j][rapid.IntRange(0, len(args[j])-1).Draw(rt, "which")].val.Store(fmt.Sprint("v", values))
				values++
			}
		}
		var final []wantEvent
		for i, w := range wants {
			final = append(final, wantEvent{w(), i%3 == 0})
		}
		if err := eventsMatch(m.tr.Events(), final); err != nil {
			rt.Fatalf("%v", err)
		}
		for _, as := range args {
			for _, a := range as {
				a.val.Store("later")
			}
		}
		if err := eventsMatch(m.tr.Events(), final); err != nil {
			rt.Fatalf("after the first read: %v", err)
		}
		k.interesting(n >= 2)
	})
}

// ---- C24 ------------------------------------------------------------------

// recordingWriter records each call to Write.
type recordingWriter struct {
	mtx   sync.Mutex
	lines []string
}

func (w *recordingWriter) Write(p []byte) (int, error) {
	w.mtx.Lock()
	defer w.mtx.Unlock()
	w.lines = append(w.lines, string(p))
	return len(p), nil
}

// spyTrace records calls to a decorated trace.
type spyTrace struct {
	trc.Trace
	name string
	out  *[]string
}

func (st *spyTrace) Tracef(f string, args ...any) {
	*st.out = append(*st.out, st.name+" Tracef")
	st.Trace.Tracef(f, args...)
}
func (st *spyTrace) LazyTracef(f string, args ...any) {
	*st.out = append(*st.out, st.name+" LazyTracef")
	st.Trace.LazyTracef(f, args...)
}
func (st *spyTrace) Errorf(f string, args ...any) {
	*st.out = append(*st.out, st.name+" Errorf")
	st.Trace.Errorf(f, args...)
}
func (st *spyTrace) LazyErrorf(f string, args ...any) {
	*st.out = append(*st.out, st.name+" LazyErrorf")
	st.Trace.LazyErrorf(f, args...)
}
func (st *spyTrace) Finish() {
	*st.out = append(*st.out, st.name+" Finish")
	st.Trace.Finish()
}
func (st *spyTrace) Free() {
	*st.out = append(*st.out, st.name+" Free")
	if f, ok := st.Trace.(interface{ Free() }); ok {
		f.Free()
	}
}

func (c call) method() string {
	name, _, _ := strings.Cut(c.String(), "(")
	return name
}

func TestC24(t *testing.T) {
	check(t, "order", "traces made with random lists of decorators, by New and by collectors configured in different ways (config, SetDecorators repeatedly, custom constructors); the decorators' applications and calls are recorded and compared with the expected order; non-trivial: at least 2 decorators", 500, func(rt *rapid.T, k *kase) {
		var applied, calls []string
		decorator := func(name string) trc.DecoratorFunc {
			return func(tr trc.Trace) trc.Trace {
				applied = append(applied, name+" "+tr.ID())
				return &spyTrace{tr, name, &calls}
			}
		}
		genList := func(label string) (names []string, ds []trc.DecoratorFunc) {
			for i, n := 0, rapid.IntRange(0, 4).Draw(rt, label); i < n; i++ {
				name := fmt.Sprintf("%s%d", label, i)
				names = append(names, name)
				ds = append(ds, decorator(name))
			}
			return names, ds
		}
		var (
			names []string
			ds    []trc.DecoratorFunc
			make_ func(i int) (context.Context, trc.Trace)
			kind  = rapid.SampledFrom([]string{"New", "config", "SetDecorators", "both", "constructor", "fake"}).Draw(rt, "kind")
			inner []string
			ff    = &fakeFactory{}
			col   *trc.Collector
		)
		names, ds = genList("a")
		k.notef("%s %v", kind, names)
		switch kind {
		case "New":
			make_ = func(int) (context.Context, trc.Trace) { return trc.New(bg, "src", "cat", ds...) }
		case "config":
			col = trc.NewCollector(trc.CollectorConfig{Source: "src", Decorators: ds})
		case "SetDecorators":
			col = trc.NewCollector(trc.CollectorConfig{Source: "src"}).SetDecorators(ds...)
		case "both":
			col = trc.NewCollector(trc.CollectorConfig{Source: "src", Decorators: ds})
			names, ds = genList("b")
			col.SetDecorators(ds...)
		case "constructor":
			var ids []trc.DecoratorFunc
			inner, ids = genList("i")
			col = trc.NewCollector(trc.CollectorConfig{Source: "src", Decorators: ds, NewTrace: func(ctx context.Context, source, category string, more ...trc.DecoratorFunc) (context.Context, trc.Trace) {
				return trc.New(ctx, source, category, append(append([]trc.DecoratorFunc{}, ids...), more...)...)
			}})
		case "fake":
			col = trc.NewCollector(trc.CollectorConfig{Source: "src"}).SetNewTrace(ff.new).SetDecorators(ds...)
		}
		if col != nil {
			make_ = func(i int) (context.Context, trc.Trace) {
				ff.next = &fakeTrace{id: fmt.Sprint("fake", i), started: baseTime}
				return col.NewTrace(bg, "cat")
			}
			col.SetCategorySize(1)
		}
		order := append(append([]string{}, inner...), names...) // innermost first
		k.interesting(len(order) >= 2)
		var previous []string
		for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "traces"); i < n; i++ {
			applied, calls = nil, nil
			ctx, tr := make_(i)
			if got := trc.Get(ctx); got != tr {
				rt.Fatalf("the context has a different trace")
			}
			var want []string
			for _, name := range order {
				want = append(want, name+" "+tr.ID())
			}
			if fmt.Sprint(applied) != fmt.Sprint(want) {
				rt.Fatalf("decorators were applied as %v, want %v", applied, want)
			}
			if col != nil && i > 0 { // the previous trace was dropped, and freed
				want = nil
				for j := len(order) - 1; j >= 0; j-- {
					want = append(want, order[j]+" Free")
				}
				// Which decorators get it depends on whether the inner one passes it on.
				if fmt.Sprint(calls) != fmt.Sprint(want) {
					rt.Fatalf("when a trace is dropped: calls %v, want %v", calls, want)
				}
			}
			_ = previous
			for j, nc := 0, rapid.IntRange(0, 4).Draw(rt, "calls"); j < nc; j++ {
				c := genCallW(true).Draw(rt, "call")
				calls = nil
				c.apply(tr)
				want = nil
				for x := len(order) - 1; x >= 0; x-- {
					want = append(want, order[x]+" "+c.method())
				}
				if fmt.Sprint(calls) != fmt.Sprint(want) {
					rt.Fatalf("%s: calls %v, want %v", c.method(), calls, want)
				}
			}
			calls = nil
			tr.Finish()
			want = nil
			for x := len(order) - 1; x >= 0; x-- {
				want = append(want, order[x]+" Finish")
			}
			if fmt.Sprint(calls) != fmt.Sprint(want) {
				rt.Fatalf("Finish: calls %v, want %v", calls, want)
			}
			if !tr.Finished() {
				rt.Fatalf("not finished")
			}
		}
	})

	check(t, "logs", "random calls on traces with log decorators (to a writer or a logger, one or two of them, made by New or a collector, with core and harness traces, used directly, or via prefixes and regions); what's written is compared with a model line by line, the decorated trace is compared with the one it wraps, and dropped traces are freed; non-trivial: at least 2 events", 800, func(rt *rapid.T, k *kase) {
		var out recordingWriter
		useLogger := rapid.Bool().Draw(rt, "logger")
		pfx := ""
		var d trc.DecoratorFunc
		if useLogger {
			pfx = rapid.SampledFrom([]string{"", "pfx: ", "100% "}).Draw(rt, "pfx")
			d = trc.LoggerDecorator(log.New(&out, pfx, 0))
		} else {
			d = trc.LogDecorator(&out)
		}
		src, cat := genName().Draw(rt, "src"), genName().Draw(rt, "cat")
		if src == "" {
			src = "default"
		}
		copies := 1 // of each line
		if rapid.IntRange(0, 5).Draw(rt, "repeated") == 0 {
			copies = rapid.IntRange(2, 4).Draw(rt, "copies")
			one := d
			d = func(tr trc.Trace) trc.Trace {
				for i := 0; i < copies; i++ {
					tr = one(tr)
				}
				return tr
			}
		}
		k.label(copies > 1, "repeated decorator")
		var (
			inner trc.Trace
			tr    trc.Trace
			ctx   context.Context
			col   *trc.Collector
			ff    = &fakeFactory{next: &fakeTrace{id: rapid.SampledFrom([]string{"FAKE", "100%d", "50% "}).Draw(rt, "id"), started: baseTime, duration: genDuration().Draw(rt, "duration")}}
			grab  = func(t trc.Trace) trc.Trace { inner = t; return t }
			kind  = rapid.SampledFrom([]string{"New", "collector", "fake"}).Draw(rt, "kind")
			fake  = ff.next
		)
		switch kind {
		case "New":
			ctx, tr = trc.New(bg, src, cat, grab, d)
		case "collector":
			col = trc.NewCollector(trc.CollectorConfig{Source: src, Decorators: []trc.DecoratorFunc{grab, d}})
			ctx, tr = col.NewTrace(bg, cat)
		case "fake":
			col = trc.NewCollector(trc.CollectorConfig{Source: src, Decorators: []trc.DecoratorFunc{grab, d}, NewTrace: ff.new})
			ctx, tr = col.NewTrace(bg, cat)
		}
		k.notef("%s logger=%v %q %q", kind, useLogger, src, cat)
		norm := func(s string) string { return strings.TrimRight(s, "\n") }
		taken := 0
		line := func(what string) string {
			rt.Helper()
			out.mtx.Lock()
			defer out.mtx.Unlock()
			if len(out.lines) != taken+copies {
				rt.Fatalf("%d lines after %s, want %d: %q", len(out.lines), what, taken+copies, out.lines)
			}
			s := out.lines[taken]
			for _, other := range out.lines[taken : taken+copies] {
				if other != s && what != "Finish" { // which has durations
					rt.Fatalf("decorators wrote different lines, %q and %q", s, other)
				}
			}
			taken += copies
			if !strings.HasSuffix(s, "\n") {
				rt.Fatalf("line %q doesn't end with a newline", s)
			}
			rest, ok := strings.CutPrefix(s, pfx+tr.ID()+" ")
			if !ok {
				rt.Fatalf("line %q doesn't begin with the ID", s)
			}
			return norm(rest)
		}
		if s := line("creation"); !strings.Contains(s, src) || !strings.Contains(s, cat) {
			rt.Fatalf("line %q doesn't have the source %q and category %q", s, src, cat)
		}
		handles, prefixes := []trc.Trace{tr}, []string{""}
		n := rapid.IntRange(0, 8).Draw(rt, "n")
		errored := false
		for i := 0; i < n; i++ {
			j := rapid.IntRange(0, len(handles)-1).Draw(rt, "handle")
			if rapid.IntRange(0, 4).Draw(rt, "prefix?") == 0 {
				c := genFmt(true).Draw(rt, "prefix")
				c.format = strings.TrimSpace(c.format)
				pctx, _ := trc.Put(ctx, handles[j])
				_, h := trc.Prefix(pctx, c.format, c.args...)
				if c.format != "" {
					handles, prefixes = append(handles, h), append(prefixes, prefixes[j]+c.text()+" ")
				}
				continue
			}
			c := genCallW(prefixes[j] != "").Draw(rt, "call")
			k.notef("%s", c)
			c.apply(handles[j])
			want := prefixes[j] + c.text()
			if c.iserr {
				errored = true
				want = "ERROR: " + want
			}
			if have := line(c.String()); have != norm(want) {
				rt.Fatalf("line is %q, want %q", have, want)
			}
		}
		a, b := snap(tr), snap(inner)
		if !a.finished && kind != "fake" {
			b.duration = a.duration // ticking
		}
		if err := a.equal(b); err != nil {
			rt.Fatalf("decorated trace, and the trace it decorates: %v", err)
		}
		handles[rapid.IntRange(0, len(handles)-1).Draw(rt, "handle")].Finish()
		s := line("Finish")
		outcome := "success"
		if errored {
			outcome = "errored"
		}
		parts := strings.Split(s, ", ")
		if !strings.Contains(s, outcome) || (outcome == "success") == strings.Contains(s, "errored") {
			rt.Fatalf("line is %q, want outcome %q", s, outcome)
		}
		if err := humanizedOK(parts[len(parts)-1], tr.Duration(), tr.Duration()); err != nil {
			rt.Fatalf("line is %q: %v", s, err)
		}
		if !inner.Finished() {
			rt.Fatalf("the decorated trace isn't finished")
		}
		if col != nil {
			col.SetCategorySize(1)
			if fake.frees != 0 {
				rt.Fatalf("freed too early")
			}
			ff.next = &fakeTrace{id: "NEXT"}
			_, _ = col.NewTrace(bg, cat)
			if kind == "fake" && fake.frees != 1 {
				rt.Fatalf("dropped trace was freed %d times", fake.frees)
			}
		}
		k.interesting(n >= 2)
	})
}
