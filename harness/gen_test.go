package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/peterbourgon/trc"
	"pgregory.net/rapid"
)

// ---- text -----------------------------------------------------------------

var wordList = []string{
	"a", "b", "foo", "bar", "baz", "quux", "GET /x", "error", "x,y;z", "<b>&amp;", `"q"`, "'s'", "100%",
	"%d", "%s", "%!", "日本", "é", "→", "\n", "\t", " ", "  ", "0", "-1", "null", "\\", "/", "?a=b&c=d#e", "+", "%41", "\u2028", "\x00", "[x]", "(y)", "*", "\U0001F600",
}

// sometimes is true in about 1 in 30 cases, and seldom in about 1 in 150. Both
// shrink to false.
func sometimes(t *rapid.T, label string) bool { return rapid.IntRange(0, 59).Draw(t, label) == 59 }
func seldom(t *rapid.T, label string) bool    { return rapid.IntRange(0, 99).Draw(t, label) == 50 }

// genText is valid UTF-8 text, including unusual characters, and long text.
func genText() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.SampledFrom(wordList),
		rapid.SampledFrom(wordList),
		rapid.Custom(func(t *rapid.T) string {
			s := strings.Join(rapid.SliceOfN(rapid.SampledFrom(wordList), 0, 5).Draw(t, "words"), "")
			if s != "" && sometimes(t, "long") {
				s = strings.Repeat(s, 1+rapid.SampledFrom([]int{130, 300, 600, 1100, 2100, 4200, 9000}).Draw(t, "length")/len(s))
			}
			return s
		}),
		rapid.StringN(0, 12, -1),
		rapid.StringMatching(`[a-c]{1,4}`),
	)
}

// genWord is simple text without format verbs or spaces.
func genWord() *rapid.Generator[string] { return rapid.StringMatching(`[a-z]{1,6}`) }

// genName is used for categories, sources: mostly simple, sometimes weird.
func genName() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"a", "b", "c", "foo", "bar", "http"}),
		rapid.SampledFrom([]string{"a", "b", "c"}),
		rapid.SampledFrom([]string{" a", "a ", " GET /x ", "/a/b/", "x\ty", "a\n", ".", "a:b", "a=b", "overal", "-a", "--", "traces", "ALL", strings.Repeat("long/", 60)}),
		rapid.SampledFrom([]string{"", " ", "A", "a b", "a/b", "a&b=c", "<x>", "日本", "100%", "%s", "a+b", "#", "a,b", "'", "\"", "\\", "(orphan)"}),
	)
}

// ---- formatted calls ------------------------------------------------------

// call is a single call to one of the event methods.
type call struct {
	lazy, iserr bool
	format      string
	args        []any
}

func (c call) text() string { return fmt.Sprintf(c.format, c.args...) }

func (c call) apply(tr trc.Trace) {
	switch {
	case c.lazy && c.iserr:
		tr.LazyErrorf(c.format, c.args...)
	case c.lazy:
		tr.LazyTracef(c.format, c.args...)
	case c.iserr:
		tr.Errorf(c.format, c.args...)
	default:
		tr.Tracef(c.format, c.args...)
	}
}

func (c call) String() string {
	name := "Tracef"
	if c.iserr {
		name = "Errorf"
	}
	if c.lazy {
		name = "Lazy" + name
	}
	return fmt.Sprintf("%s(%q, %v)", name, c.format, c.args)
}

type point struct{ X, Y int }

func genArg() *rapid.Generator[any] {
	return rapid.OneOf(
		genText().AsAny(),
		rapid.IntRange(-5, 1000).AsAny(),
		rapid.Bool().AsAny(),
		rapid.Custom(func(t *rapid.T) any { return time.Duration(rapid.IntRange(0, 1e9).Draw(t, "ns")) }),
		rapid.Custom(func(t *rapid.T) any { return errors.New(genText().Draw(t, "err")) }),
		rapid.Custom(func(t *rapid.T) any { return point{rapid.IntRange(0, 9).Draw(t, "x"), 2} }),
		rapid.Just[any](nil),
		rapid.Custom(func(t *rapid.T) any { return []string{genWord().Draw(t, "e")} }),
	)
}

// genFmt is a format string and args, which mostly correspond.
func genFmt(wellformed bool) *rapid.Generator[call] {
	return rapid.Custom(func(t *rapid.T) call {
		var sb strings.Builder
		var args []any
		n := rapid.IntRange(0, 4).Draw(t, "pieces")
		if sometimes(t, "more") {
			n = rapid.IntRange(5, 16).Draw(t, "pieces")
		}
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 4).Draw(t, "piece") {
			case 0, 1:
				sb.WriteString(strings.ReplaceAll(genText().Draw(t, "lit"), "%", "%%"))
			case 2:
				sb.WriteString("%v")
				args = append(args, genArg().Draw(t, "arg"))
			case 3:
				sb.WriteString(rapid.SampledFrom([]string{"%q", "%s", "%+v", "%T", "%#v", "%8v|", "%-4v|"}).Draw(t, "verb"))
				args = append(args, genArg().Draw(t, "arg"))
			case 4:
				sb.WriteString("%d")
				args = append(args, rapid.IntRange(-3, 99999).Draw(t, "int"))
			}
		}
		if !wellformed && rapid.IntRange(0, 9).Draw(t, "malformed") == 0 {
			switch rapid.IntRange(0, 2).Draw(t, "how") {
			case 0:
				sb.WriteString("%d %z") // missing args, bad verb
			case 1:
				args = append(args, "extra")
			case 2:
				sb.WriteString("%")
			}
		}
		return call{format: sb.String(), args: args}
	})
}

func genCall() *rapid.Generator[call] { return genCallW(false) }

func genCallW(wellformed bool) *rapid.Generator[call] {
	return rapid.Custom(func(t *rapid.T) call {
		c := genFmt(wellformed).Draw(t, "fmt")
		c.lazy = rapid.Bool().Draw(t, "lazy")
		c.iserr = rapid.IntRange(0, 4).Draw(t, "iserr") == 0
		return c
	})
}

// ---- expected events ------------------------------------------------------

type wantEvent struct {
	what  string
	iserr bool
}

func eventsMatch(have []trc.Event, want []wantEvent) error {
	for i := range have {
		if i >= len(want) {
			return fmt.Errorf("have %d events, want %d: extra event %q", len(have), len(want), have[i].What)
		}
		if have[i].What != want[i].what {
			return fmt.Errorf("event %d of %d: have %q, want %q", i, len(have), have[i].What, want[i].what)
		}
		if have[i].IsError != want[i].iserr {
			return fmt.Errorf("event %d (%q): IsError: have %v, want %v", i, have[i].What, have[i].IsError, want[i].iserr)
		}
	}
	if len(have) < len(want) {
		return fmt.Errorf("have %d events, want %d: missing event %q", len(have), len(want), want[len(have)].what)
	}
	return nil
}

// ---- deep copies and comparisons -------------------------------------------

func copyEvents(evs []trc.Event) []trc.Event {
	res := make([]trc.Event, len(evs))
	for i, ev := range evs {
		ev.What = strings.Clone(ev.What)
		stack := make([]trc.Frame, len(ev.Stack))
		for j, fr := range ev.Stack {
			stack[j] = trc.Frame{Function: strings.Clone(fr.Function), FileLine: strings.Clone(fr.FileLine)}
		}
		ev.Stack = stack
		res[i] = ev
	}
	return res
}

func eventsEqual(a, b []trc.Event) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d events vs. %d events", len(a), len(b))
	}
	for i := range a {
		if a[i].What != b[i].What {
			return fmt.Errorf("event %d: what %q vs. %q", i, a[i].What, b[i].What)
		}
		if !a[i].When.Equal(b[i].When) {
			return fmt.Errorf("event %d (%q): when %s vs. %s", i, a[i].What, a[i].When, b[i].When)
		}
		if a[i].IsError != b[i].IsError {
			return fmt.Errorf("event %d (%q): is error %v vs. %v", i, a[i].What, a[i].IsError, b[i].IsError)
		}
		if len(a[i].Stack) != len(b[i].Stack) {
			return fmt.Errorf("event %d (%q): %d stack frames vs. %d", i, a[i].What, len(a[i].Stack), len(b[i].Stack))
		}
		for j := range a[i].Stack {
			if a[i].Stack[j] != b[i].Stack[j] {
				return fmt.Errorf("event %d (%q): stack frame %d: %v vs. %v", i, a[i].What, j, a[i].Stack[j], b[i].Stack[j])
			}
		}
	}
	return nil
}

func copyStatic(st *trc.StaticTrace) *trc.StaticTrace {
	cp := *st
	cp.TraceEvents = copyEvents(st.TraceEvents)
	return &cp
}

func staticEqual(a, b *trc.StaticTrace) error {
	switch {
	case a.TraceID != b.TraceID:
		return fmt.Errorf("ID %q vs. %q", a.TraceID, b.TraceID)
	case a.TraceSource != b.TraceSource:
		return fmt.Errorf("%s: source %q vs. %q", a.TraceID, a.TraceSource, b.TraceSource)
	case a.TraceCategory != b.TraceCategory:
		return fmt.Errorf("%s: category %q vs. %q", a.TraceID, a.TraceCategory, b.TraceCategory)
	case !a.TraceStarted.Equal(b.TraceStarted):
		return fmt.Errorf("%s: started %s vs. %s", a.TraceID, a.TraceStarted, b.TraceStarted)
	case a.TraceDuration != b.TraceDuration:
		return fmt.Errorf("%s: duration %s vs. %s", a.TraceID, a.TraceDuration, b.TraceDuration)
	case a.TraceDurationStr != b.TraceDurationStr:
		return fmt.Errorf("%s: duration string %q vs. %q", a.TraceID, a.TraceDurationStr, b.TraceDurationStr)
	case a.TraceDurationSec != b.TraceDurationSec:
		return fmt.Errorf("%s: duration sec %v vs. %v", a.TraceID, a.TraceDurationSec, b.TraceDurationSec)
	case a.TraceFinished != b.TraceFinished:
		return fmt.Errorf("%s: finished %v vs. %v", a.TraceID, a.TraceFinished, b.TraceFinished)
	case a.TraceErrored != b.TraceErrored:
		return fmt.Errorf("%s: errored %v vs. %v", a.TraceID, a.TraceErrored, b.TraceErrored)
	}
	if err := eventsEqual(a.TraceEvents, b.TraceEvents); err != nil {
		return fmt.Errorf("%s: %w", a.TraceID, err)
	}
	return nil
}

// ---- snapshots of live traces ---------------------------------------------

type snapshot struct {
	id, source, category string
	started              time.Time
	duration             time.Duration
	finished, errored    bool
	events               []trc.Event
}

func snap(tr trc.Trace) snapshot {
	return snapshot{tr.ID(), tr.Source(), tr.Category(), tr.Started(), tr.Duration(), tr.Finished(), tr.Errored(), copyEvents(tr.Events())}
}

func (a snapshot) equal(b snapshot) error {
	switch {
	case a.id != b.id:
		return fmt.Errorf("ID %q vs. %q", a.id, b.id)
	case a.source != b.source:
		return fmt.Errorf("source %q vs. %q", a.source, b.source)
	case a.category != b.category:
		return fmt.Errorf("category %q vs. %q", a.category, b.category)
	case !a.started.Equal(b.started):
		return fmt.Errorf("started %s vs. %s", a.started, b.started)
	case a.duration != b.duration:
		return fmt.Errorf("duration %s vs. %s", a.duration, b.duration)
	case a.finished != b.finished:
		return fmt.Errorf("finished %v vs. %v", a.finished, b.finished)
	case a.errored != b.errored:
		return fmt.Errorf("errored %v vs. %v", a.errored, b.errored)
	}
	return eventsEqual(a.events, b.events)
}

// ---- custom traces --------------------------------------------------------

// fakeTrace is a Trace implementation controlled by the harness.
type fakeTrace struct {
	mtx      sync.Mutex
	id       string
	source   string
	category string
	started  time.Time
	duration time.Duration
	finished bool
	errored  bool
	events   []trc.Event
	frees    int
}

var _ trc.Trace = (*fakeTrace)(nil)

func (tr *fakeTrace) add(iserr bool, format string, args ...any) {
	tr.mtx.Lock()
	defer tr.mtx.Unlock()
	if tr.finished {
		return
	}
	tr.errored = tr.errored || iserr
	tr.events = append(tr.events, trc.Event{When: time.Now().UTC(), What: fmt.Sprintf(format, args...), IsError: iserr})
}
func (tr *fakeTrace) ID() string         { return tr.id }
func (tr *fakeTrace) Source() string     { return tr.source }
func (tr *fakeTrace) Category() string   { return tr.category }
func (tr *fakeTrace) Started() time.Time { return tr.started }
func (tr *fakeTrace) Duration() time.Duration {
	tr.mtx.Lock()
	defer tr.mtx.Unlock()
	return tr.duration
}
func (tr *fakeTrace) Tracef(f string, args ...any)     { tr.add(false, f, args...) }
func (tr *fakeTrace) LazyTracef(f string, args ...any) { tr.add(false, f, args...) }
func (tr *fakeTrace) Errorf(f string, args ...any)     { tr.add(true, f, args...) }
func (tr *fakeTrace) LazyErrorf(f string, args ...any) { tr.add(true, f, args...) }
func (tr *fakeTrace) Finish()                          { tr.mtx.Lock(); defer tr.mtx.Unlock(); tr.finished = true }
func (tr *fakeTrace) Finished() bool                   { tr.mtx.Lock(); defer tr.mtx.Unlock(); return tr.finished }
func (tr *fakeTrace) Errored() bool                    { tr.mtx.Lock(); defer tr.mtx.Unlock(); return tr.errored }
func (tr *fakeTrace) Events() []trc.Event {
	tr.mtx.Lock()
	defer tr.mtx.Unlock()
	return append([]trc.Event(nil), tr.events...)
}
func (tr *fakeTrace) Free() { tr.mtx.Lock(); defer tr.mtx.Unlock(); tr.frees++ }

// fakeFactory is a NewTraceFunc that produces fake traces from a queue.
type fakeFactory struct {
	next *fakeTrace
}

func (ff *fakeFactory) new(ctx context.Context, source, category string, decorators ...trc.DecoratorFunc) (context.Context, trc.Trace) {
	ff.next.source, ff.next.category = source, category
	tr := trc.Trace(ff.next)
	for _, d := range decorators {
		tr = d(tr)
	}
	return trc.Put(ctx, tr)
}

// ---- static traces, frames -------------------------------------------------

var baseTime = time.Date(2024, 5, 17, 10, 20, 30, 123456789, time.UTC)

func genFrame() *rapid.Generator[trc.Frame] {
	return rapid.Custom(func(t *rapid.T) trc.Frame {
		return trc.Frame{
			Function: rapid.OneOf(rapid.SampledFrom([]string{"main.main", "github.com/foo/bar.Baz", "a/b/c.(*T).Method", "f", "", "x.y/z.Func.func1", "github.com/foo.Bar", "golang.org/x/net/http2.(*T).m", "example.com/v2.F[...]"}), genText()).Draw(t, "function"),
			FileLine: rapid.OneOf(rapid.SampledFrom([]string{"/a/b/c.go:12", "c.go:1", "/x.go:99", "/home/u/src/foo/bar.go:123", "nofile", "", "a/b.go:7"}), genText()).Draw(t, "fileline"),
		}
	})
}

func genEvent(base time.Time) *rapid.Generator[trc.Event] {
	return rapid.Custom(func(t *rapid.T) trc.Event {
		ev := trc.Event{
			When:    base.Add(time.Duration(rapid.IntRange(0, 5_000_000_000).Draw(t, "when"))),
			What:    genText().Draw(t, "what"),
			IsError: rapid.IntRange(0, 3).Draw(t, "iserr") == 0,
		}
		if fs := rapid.SliceOfN(genFrame(), 0, 4).Draw(t, "stack"); len(fs) > 0 {
			ev.Stack = fs
			if sometimes(t, "deep") {
				for i, n := 0, rapid.SampledFrom([]int{5, 9, 17, 33, 40, 65, 101, 140}).Draw(t, "depth"); len(ev.Stack) < n; i++ {
					ev.Stack = append(ev.Stack, trc.Frame{Function: fmt.Sprintf("deep/pkg.F%d", i), FileLine: fmt.Sprintf("/deep/f.go:%d", i)})
				}
			}
		}
		return ev
	})
}

var durationList = []time.Duration{0, 1, 999, 1000, 99_999, 100_000, 100_001, 999_999, 1_000_000, 1_000_001, 5_000_000, 10_000_000, 24_999_999, 25_000_000, 25_000_001, 50_000_000, 100_000_000, 999_999_999, 1_000_000_000, 1_000_000_001, 90_000_000_000, 3_600_000_000_000}

func genDuration() *rapid.Generator[time.Duration] {
	return rapid.OneOf(
		rapid.SampledFrom(durationList),
		rapid.Map(rapid.Int64Range(0, 10_000_000_000), func(n int64) time.Duration { return time.Duration(n) }),
	)
}

func genStatic() *rapid.Generator[*trc.StaticTrace] {
	return rapid.Custom(func(t *rapid.T) *trc.StaticTrace {
		started := baseTime.Add(time.Duration(rapid.IntRange(0, 3).Draw(t, "started")) * time.Second)
		st := &trc.StaticTrace{
			TraceSource:   genName().Draw(t, "source"),
			TraceID:       rapid.OneOf(rapid.StringMatching(`[0-9A-F]{4}`), genName()).Draw(t, "id"),
			TraceCategory: genName().Draw(t, "category"),
			TraceStarted:  started,
			TraceDuration: genDuration().Draw(t, "duration"),
			TraceFinished: rapid.Bool().Draw(t, "finished"),
			TraceErrored:  rapid.Bool().Draw(t, "errored"),
		}
		if evs := rapid.SliceOfN(genEvent(started), 0, 4).Draw(t, "events"); len(evs) > 0 {
			if seldom(t, "many") {
				for i, n := 0, rapid.SampledFrom([]int{20, 70, 130, 300, 1100}).Draw(t, "times"); len(evs) < n; i++ {
					ev := evs[i]
					ev.What = fmt.Sprintf("many%d", i)
					evs = append(evs, ev)
				}
			}
			st.TraceEvents = evs
		}
		return st
	})
}

// ---- discarding logger ----------------------------------------------------

type lockedBuf struct {
	mtx sync.Mutex
	sb  strings.Builder
}

func (b *lockedBuf) Write(p []byte) (int, error) {
	b.mtx.Lock()
	defer b.mtx.Unlock()
	return b.sb.Write(p)
}

func (b *lockedBuf) String() string {
	b.mtx.Lock()
	defer b.mtx.Unlock()
	return b.sb.String()
}

var _ = io.Discard

func quoteMeta(s string) string { return regexp.QuoteMeta(s) }

func validRegexp(s string) bool { _, err := regexp.Compile(s); return err == nil }
