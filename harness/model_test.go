package harness

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"pgregory.net/rapid"
)

// ---- filters --------------------------------------------------------------

var validQueries = []string{"foo", "^a", "b$", "a|b", "[a-c]+", "(?i)FOO", ".", "x,y", `\d+`, "日本", "^$", "a b", "main", `c\.go`, "GET", "q", "ev", "&", "#", `\+`, "%", "a+b", "<b>", `"`, `\bfoo\b`, "zzz", "Method", "bar.go:123", "::"}

var invalidQueries = []string{"(", "[", "*", "(?P<", "a{2,1}", `\`, "a**", ")", "[z-a]", "(?z)"}

type filterPools struct{ sources, ids, cats []string }

func pick(t *rapid.T, pool []string, label string) string {
	if len(pool) > 0 && rapid.IntRange(0, 4).Draw(t, label+"?") > 0 {
		return rapid.SampledFrom(pool).Draw(t, label)
	}
	return genName().Draw(t, label)
}

func fillers(t *rapid.T, prefix string) []string {
	res := make([]string, rapid.SampledFrom([]int{5, 10, 20, 40, 70, 130, 300}).Draw(t, "fillers"))
	for i := range res {
		res[i] = fmt.Sprintf("%s%d", prefix, i)
	}
	return res
}

// genFilter produces a filter. If sparse, then most conditions are unset.
func genFilter(p filterPools, invalid bool) *rapid.Generator[trc.Filter] {
	return rapid.Custom(func(t *rapid.T) trc.Filter {
		var f trc.Filter
		on := func(name string, oneIn int) bool { return rapid.IntRange(0, oneIn-1).Draw(t, name) == oneIn-1 }
		if on("sources?", 5) {
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "nsources"); i < n; i++ {
				if i == 0 && sometimes(t, "many") {
					f.Sources = fillers(t, "s")
				}
				f.Sources = append(f.Sources, pick(t, p.sources, "source"))
			}
		}
		if on("ids?", 6) {
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "nids"); i < n; i++ {
				if i == 0 && sometimes(t, "many") {
					f.IDs = fillers(t, "i")
				}
				f.IDs = append(f.IDs, pick(t, p.ids, "id"))
			}
		}
		if on("category?", 4) {
			f.Category = pick(t, p.cats, "category")
		}
		f.IsActive = on("active", 7)
		f.IsFinished = on("finished", 6)
		f.IsSuccess = on("success", 7)
		f.IsErrored = on("errored", 7)
		if on("min?", 5) {
			d := genDuration().Draw(t, "min")
			if on("negative", 12) {
				d = -d
			}
			f.MinDuration = &d
		}
		if on("query?", 3) {
			f.Query = rapid.OneOf(rapid.SampledFrom(validQueries), rapid.Map(genText(), regexp.QuoteMeta)).Draw(t, "query")
		}
		if invalid && on("invalid?", 8) {
			f.Query = rapid.SampledFrom(invalidQueries).Draw(t, "query")
		}
		return f
	})
}

func copyFilter(f trc.Filter) trc.Filter {
	res := trc.Filter{Category: f.Category, IsActive: f.IsActive, IsFinished: f.IsFinished, IsSuccess: f.IsSuccess, IsErrored: f.IsErrored, Query: f.Query}
	res.Sources = append([]string(nil), f.Sources...)
	res.IDs = append([]string(nil), f.IDs...)
	if f.MinDuration != nil {
		d := *f.MinDuration
		res.MinDuration = &d
	}
	return res
}

// filterEqual compares the visible fields of filters.
func filterEqual(a, b trc.Filter) error {
	strs := func(ss []string) string { return fmt.Sprintf("%d%q", len(ss), ss) }
	switch {
	case strs(a.Sources) != strs(b.Sources):
		return fmt.Errorf("sources %q vs. %q", a.Sources, b.Sources)
	case strs(a.IDs) != strs(b.IDs):
		return fmt.Errorf("IDs %q vs. %q", a.IDs, b.IDs)
	case a.Category != b.Category:
		return fmt.Errorf("category %q vs. %q", a.Category, b.Category)
	case a.IsActive != b.IsActive:
		return fmt.Errorf("active %v vs. %v", a.IsActive, b.IsActive)
	case a.IsFinished != b.IsFinished:
		return fmt.Errorf("finished %v vs. %v", a.IsFinished, b.IsFinished)
	case a.IsSuccess != b.IsSuccess:
		return fmt.Errorf("success %v vs. %v", a.IsSuccess, b.IsSuccess)
	case a.IsErrored != b.IsErrored:
		return fmt.Errorf("errored %v vs. %v", a.IsErrored, b.IsErrored)
	case (a.MinDuration == nil) != (b.MinDuration == nil):
		return fmt.Errorf("min duration %v vs. %v", a.MinDuration, b.MinDuration)
	case a.MinDuration != nil && *a.MinDuration != *b.MinDuration:
		return fmt.Errorf("min duration %s vs. %s", *a.MinDuration, *b.MinDuration)
	case a.Query != b.Query:
		return fmt.Errorf("query %q vs. %q", a.Query, b.Query)
	}
	return nil
}

func showFilter(f trc.Filter) string {
	min := "nil"
	if f.MinDuration != nil {
		min = f.MinDuration.String()
	}
	return fmt.Sprintf("{src=%q ids=%q cat=%q act=%v fin=%v suc=%v err=%v min=%s q=%q}", f.Sources, f.IDs, f.Category, f.IsActive, f.IsFinished, f.IsSuccess, f.IsErrored, min, f.Query)
}

func contains(ss []string, s string) bool {
	for i := range ss {
		if ss[i] == s {
			return true
		}
	}
	return false
}

// modelAllow is the reference implementation of filters.
func modelAllow(f trc.Filter, tr trc.Trace) bool {
	conds := []bool{
		len(f.Sources) == 0 || contains(f.Sources, tr.Source()),
		len(f.IDs) == 0 || contains(f.IDs, tr.ID()),
		f.Category == "" || f.Category == tr.Category(),
		!f.IsActive || !tr.Finished(),
		!f.IsFinished || tr.Finished(),
		f.MinDuration == nil || (tr.Finished() && tr.Duration() >= *f.MinDuration),
		!f.IsSuccess || !tr.Errored(),
		!f.IsErrored || tr.Errored(),
	}
	if f.Query != "" {
		if re, err := regexp.Compile(f.Query); err == nil {
			found := false
			for _, ev := range tr.Events() {
				found = found || re.MatchString(ev.What)
				for _, fr := range ev.Stack {
					found = found || re.MatchString(fr.Function) || re.MatchString(modelCompact(fr))
				}
			}
			conds = append(conds, found)
		}
	}
	for _, ok := range conds {
		if !ok {
			return false
		}
	}
	return true
}

// modelCompact is the reference implementation of Frame.CompactFileLine: the
// import path of the function's package, without its final element, followed by
// the last two elements of the file path, and the line.
func modelCompact(fr trc.Frame) string {
	file, line, _ := strings.Cut(fr.FileLine, ":")
	if elems := strings.Split(file, "/"); len(elems) > 2 {
		file = strings.Join(elems[len(elems)-2:], "/")
	}
	prefix := ""
	if elems := strings.Split(fr.Function, "/"); len(elems) > 1 {
		prefix = strings.Join(elems[:len(elems)-1], "/")
	}
	if prefix != "" {
		file = prefix + "/" + file
	}
	return file + ":" + line
}

// ---- requests -------------------------------------------------------------

func genBucketing() *rapid.Generator[[]time.Duration] {
	return rapid.Custom(func(t *rapid.T) []time.Duration {
		if rapid.IntRange(0, 2).Draw(t, "default") == 0 {
			return nil
		}
		min, max := 0, 16
		switch rapid.IntRange(0, 9).Draw(t, "size") {
		case 0:
			min, max = 17, 60
		case 1: // same size as the default one
			bs := []time.Duration{0}
			for i := 1; i < len(trc.DefaultBucketing); i++ {
				bs = append(bs, bs[i-1]+1+genDuration().Draw(t, "step"))
			}
			return bs
		}
		bs := rapid.SliceOfN(rapid.OneOf(
			rapid.SampledFrom(durationList),
			rapid.SampledFrom([]time.Duration{-1, -time.Second, 0, 0}),
			genDuration(),
		), min, max).Draw(t, "buckets")
		if len(bs) == 0 {
			return nil
		}
		return bs
	})
}

func genLimit() *rapid.Generator[int] {
	return rapid.OneOf(
		rapid.SampledFrom([]int{0, 1, 2, 3, 5, 9, 10, 11, 249, 250, 251, 1000, -1, -10}),
		rapid.IntRange(1, 20),
		rapid.SampledFrom([]int{math.MinInt64, math.MaxInt64}),
	)
}

func genRequest(p filterPools, invalid bool) *rapid.Generator[*trc.SearchRequest] {
	return rapid.Custom(func(t *rapid.T) *trc.SearchRequest {
		return &trc.SearchRequest{
			Bucketing:  genBucketing().Draw(t, "bucketing"),
			Filter:     genFilter(p, invalid).Draw(t, "filter"),
			Limit:      genLimit().Draw(t, "limit"),
			StackDepth: rapid.SampledFrom([]int{0, 0, -1, 1, 2, 3, 4, 8, 16, 32, 64, 100, 1000, -2, -100}).Draw(t, "depth"),
		}
	})
}

func copyRequest(req *trc.SearchRequest) *trc.SearchRequest {
	return &trc.SearchRequest{
		Bucketing:  append([]time.Duration(nil), req.Bucketing...),
		Filter:     copyFilter(req.Filter),
		Limit:      req.Limit,
		StackDepth: req.StackDepth,
	}
}

func showRequest(req *trc.SearchRequest) string {
	return fmt.Sprintf("{b=%v f=%s n=%d depth=%d}", req.Bucketing, showFilter(req.Filter), req.Limit, req.StackDepth)
}

func requestEqual(a, b *trc.SearchRequest) error {
	if err := filterEqual(a.Filter, b.Filter); err != nil {
		return fmt.Errorf("filter: %w", err)
	}
	switch {
	case fmt.Sprint(a.Bucketing) != fmt.Sprint(b.Bucketing):
		return fmt.Errorf("bucketing %v vs. %v", a.Bucketing, b.Bucketing)
	case a.Limit != b.Limit:
		return fmt.Errorf("limit %d vs. %d", a.Limit, b.Limit)
	case a.StackDepth != b.StackDepth:
		return fmt.Errorf("stack depth %d vs. %d", a.StackDepth, b.StackDepth)
	}
	return nil
}

var originalDefaultBucketing = append([]time.Duration(nil), trc.DefaultBucketing...)

// modelNormalize is the reference implementation of request normalization. The
// result is a new request, and the number of problems.
func modelNormalize(req *trc.SearchRequest) (*trc.SearchRequest, int) {
	res := copyRequest(req)
	problems := 0
	if len(res.Bucketing) == 0 {
		res.Bucketing = append([]time.Duration(nil), originalDefaultBucketing...)
	}
	var bs []time.Duration
	haveZero := false
	for _, b := range res.Bucketing {
		if b >= 0 {
			bs = append(bs, b)
			haveZero = haveZero || b == 0
		}
	}
	if !haveZero {
		bs = append(bs, 0)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	res.Bucketing = bs
	switch {
	case res.Limit <= 0:
		res.Limit = 10
	case res.Limit > 250:
		res.Limit = 250
	}
	if _, err := regexp.Compile(res.Filter.Query); err != nil {
		res.Filter.Query = ""
		problems++
	}
	return res, problems
}

// ---- searches -------------------------------------------------------------

// modelCollector is the reference model of a collector's contents: traces in
// each category, oldest first.
type modelCollector struct {
	source string
	cats   map[string][]trc.Trace
}

type modelResult struct {
	total, match int
	traces       []*trc.StaticTrace
}

func newestFirst(traces []*trc.StaticTrace) {
	sort.SliceStable(traces, func(i, j int) bool {
		a, b := traces[i], traces[j]
		if !a.TraceStarted.Equal(b.TraceStarted) {
			return a.TraceStarted.After(b.TraceStarted)
		}
		return a.TraceID > b.TraceID
	})
}

func modelStatic(tr trc.Trace, depth int) *trc.StaticTrace {
	st := &trc.StaticTrace{
		TraceSource:   tr.Source(),
		TraceID:       tr.ID(),
		TraceCategory: tr.Category(),
		TraceStarted:  tr.Started(),
		TraceDuration: tr.Duration(),
		TraceFinished: tr.Finished(),
		TraceErrored:  tr.Errored(),
		TraceEvents:   copyEvents(tr.Events()),
	}
	for i := range st.TraceEvents {
		switch {
		case depth < 0:
			st.TraceEvents[i].Stack = nil
		case depth > 0 && len(st.TraceEvents[i].Stack) > depth:
			st.TraceEvents[i].Stack = st.TraceEvents[i].Stack[:depth]
		}
	}
	return st
}

// search is the reference implementation of a search. The request has to be
// normalized.
func (mc *modelCollector) search(req *trc.SearchRequest) modelResult {
	var res modelResult
	for _, traces := range mc.cats {
		selected := 0
		for i := len(traces) - 1; i >= 0; i-- {
			res.total++
			if selected < req.Limit && modelAllow(req.Filter, traces[i]) {
				selected++
				res.traces = append(res.traces, modelStatic(traces[i], req.StackDepth))
			}
		}
		res.match += selected
	}
	newestFirst(res.traces)
	if len(res.traces) > req.Limit {
		res.traces = res.traces[:req.Limit]
	}
	return res
}

func tracesEqual(have, want []*trc.StaticTrace) error {
	if len(have) != len(want) {
		return fmt.Errorf("%d traces vs. %d traces (%s vs. %s)", len(have), len(want), ids(have), ids(want))
	}
	for i := range have {
		if err := staticEqual(have[i], want[i]); err != nil {
			return fmt.Errorf("trace %d: %w (%s vs. %s)", i, err, ids(have), ids(want))
		}
	}
	return nil
}

func ids(sts []*trc.StaticTrace) string {
	var res []string
	for i, st := range sts {
		if i >= 20 {
			res = append(res, "...")
			break
		}
		res = append(res, st.TraceID)
	}
	return "[" + strings.Join(res, " ") + "]"
}

// ---- stats ----------------------------------------------------------------

type modelCategory struct {
	events, active, errored int
	buckets                 []int
	oldest, newest          time.Time
}

func (mc *modelCategory) total() int { return mc.active + mc.errored + mc.buckets[0] }

func modelStats(bucketing []time.Duration, traces []trc.Trace) map[string]*modelCategory {
	res := map[string]*modelCategory{}
	for _, tr := range traces {
		mc, ok := res[tr.Category()]
		if !ok {
			mc = &modelCategory{buckets: make([]int, len(bucketing)), oldest: tr.Started(), newest: tr.Started()}
			res[tr.Category()] = mc
		}
		mc.events += len(tr.Events())
		switch {
		case !tr.Finished():
			mc.active++
		case tr.Errored():
			mc.errored++
		default:
			for i, b := range bucketing {
				if tr.Duration() >= b {
					mc.buckets[i]++
				}
			}
		}
		if tr.Started().Before(mc.oldest) {
			mc.oldest = tr.Started()
		}
		if tr.Started().After(mc.newest) {
			mc.newest = tr.Started()
		}
	}
	return res
}

func modelOverall(bucketing []time.Duration, cats map[string]*modelCategory) *modelCategory {
	res := &modelCategory{buckets: make([]int, len(bucketing))}
	for _, mc := range cats {
		res.events += mc.events
		res.active += mc.active
		res.errored += mc.errored
		for i := range mc.buckets {
			res.buckets[i] += mc.buckets[i]
		}
		if res.oldest.IsZero() || mc.oldest.Before(res.oldest) {
			res.oldest = mc.oldest
		}
		if res.newest.IsZero() || mc.newest.After(res.newest) {
			res.newest = mc.newest
		}
	}
	return res
}

func categoryMatches(have *trc.CategoryStats, want *modelCategory) error {
	if have == nil {
		return fmt.Errorf("no category stats")
	}
	switch {
	case have.EventCount != want.events:
		return fmt.Errorf("event count %d, want %d", have.EventCount, want.events)
	case have.ActiveCount != want.active:
		return fmt.Errorf("active count %d, want %d", have.ActiveCount, want.active)
	case have.ErroredCount != want.errored:
		return fmt.Errorf("errored count %d, want %d", have.ErroredCount, want.errored)
	case !reflect.DeepEqual(have.BucketCounts, want.buckets):
		return fmt.Errorf("bucket counts %v, want %v", have.BucketCounts, want.buckets)
	case !have.Oldest.Equal(want.oldest):
		return fmt.Errorf("oldest %s, want %s", have.Oldest, want.oldest)
	case !have.Newest.Equal(want.newest):
		return fmt.Errorf("newest %s, want %s", have.Newest, want.newest)
	case have.TotalCount() != want.total():
		return fmt.Errorf("total count %d, want %d", have.TotalCount(), want.total())
	}
	return nil
}

func statsMatch(have *trc.SearchStats, bucketing []time.Duration, want map[string]*modelCategory) error {
	if have == nil {
		return fmt.Errorf("no stats")
	}
	if fmt.Sprint(have.Bucketing) != fmt.Sprint(bucketing) {
		return fmt.Errorf("bucketing %v, want %v", have.Bucketing, bucketing)
	}
	if len(have.Categories) != len(want) {
		return fmt.Errorf("categories %q, want %q", sortedKeys(have.Categories), sortedKeys(want))
	}
	for cat, mc := range want {
		cs := have.Categories[cat]
		if cs != nil && cs.Category != cat {
			return fmt.Errorf("category %q is named %q", cat, cs.Category)
		}
		if err := categoryMatches(cs, mc); err != nil {
			return fmt.Errorf("category %q: %w", cat, err)
		}
	}
	if err := categoryMatches(have.Overall(), modelOverall(bucketing, want)); err != nil {
		return fmt.Errorf("overall: %w", err)
	}
	if name := have.Overall().Category; name != "overall" {
		return fmt.Errorf("overall category is named %q", name)
	}
	all := have.AllCategories()
	if len(all) != len(want)+1 {
		return fmt.Errorf("%d categories in total, want %d", len(all), len(want)+1)
	}
	for i, cat := range sortedKeys(want) {
		if all[i].Category != cat {
			return fmt.Errorf("category %d of all is %q, want %q", i, all[i].Category, cat)
		}
		if err := categoryMatches(all[i], want[cat]); err != nil {
			return fmt.Errorf("category %q of all: %w", cat, err)
		}
	}
	if err := categoryMatches(all[len(all)-1], modelOverall(bucketing, want)); err != nil {
		return fmt.Errorf("overall category of all: %w", err)
	}
	if name := all[len(all)-1].Category; name != "overall" {
		return fmt.Errorf("last of all categories is named %q", name)
	}
	return nil
}

// ---- populated collectors -------------------------------------------------

// world is a collector filled with harness traces, and its model.
type world struct {
	col   *trc.Collector
	model *modelCollector
	all   []*fakeTrace
	pools filterPools
}

func (w *world) retained() []trc.Trace {
	var res []trc.Trace
	for _, cat := range sortedKeys(w.model.cats) {
		res = append(res, w.model.cats[cat]...)
	}
	return res
}

// idAlphabet is ordered.
const idAlphabet = "0123456789ABCDEFGHJKMNPQRSTVWXYZ"

// worldClock produces start times and IDs such that traces created later sort
// as newer, with ties in start times, and with IDs that are otherwise unrelated
// to start times.
type worldClock struct {
	now    time.Time
	serial int
	prefix string
}

func (wc *worldClock) next(t *rapid.T, source string) (time.Time, string) {
	if adv := rapid.IntRange(0, 3).Draw(t, "advance"); adv > 0 {
		wc.now = wc.now.Add(time.Duration([]int{0, 1, 1_000_000, 60_000_000_000}[adv]))
		wc.prefix = string(idAlphabet[rapid.IntRange(0, 31).Draw(t, "idprefix")])
	}
	wc.serial++
	return wc.now, fmt.Sprintf("%s%06d%s", wc.prefix, wc.serial, source)
}

type worldConfig struct {
	source        string
	minN, maxN    int
	cats          []string
	plain         bool // simple text only
	maxEvents     int
	capacity      int // zero: default
	clock         *worldClock
	interestingly bool
}

// hugeWorld has thousands of traces, over several categories. It's generated from
// a single seed, because drawing that many values takes a while.
func hugeWorld(t *rapid.T) *world {
	n := rapid.SampledFrom([]int{1100, 2100, 4500, 9000, 14000}).Draw(t, "ntraces")
	ncats := rapid.SampledFrom([]int{1, 2, 5, 9, 16, 300}).Draw(t, "ncats")
	rng := rand.New(rand.NewSource(rapid.Int64().Draw(t, "seed")))
	ff := &fakeFactory{}
	w := &world{
		col:   trc.NewCollector(trc.CollectorConfig{Source: "src", NewTrace: ff.new}),
		model: &modelCollector{source: "src", cats: map[string][]trc.Trace{}},
	}
	capacity := 1000
	if rng.Intn(3) == 0 {
		capacity = []int{1001, 2500, 20000}[rng.Intn(3)]
		w.col.SetCategorySize(capacity)
	}
	started := baseTime
	for i := 0; i < n; i++ {
		started = started.Add(time.Duration(rng.Intn(3)) * time.Microsecond)
		ft := &fakeTrace{id: fmt.Sprintf("H%06d", rng.Intn(1000)*100000+i), started: started, duration: time.Duration(rng.Int63n(int64(1) << uint(10+rng.Intn(21)))), finished: rng.Intn(5) > 0, errored: rng.Intn(4) == 0}
		for j := rng.Intn(3); j > 0; j-- {
			ft.events = append(ft.events, trc.Event{When: started, What: fmt.Sprintf("ev %d foo%d", j, i%7)})
		}
		ff.next = ft
		cat := fmt.Sprintf("cat%d", rng.Intn(ncats))
		w.col.NewTrace(bg, cat)
		w.all = append(w.all, ft)
		w.pools.ids = append(w.pools.ids, ft.id)
		w.model.cats[cat] = append(w.model.cats[cat], ft)
		if c := w.model.cats[cat]; len(c) > capacity {
			w.model.cats[cat] = c[1:]
		}
	}
	for cat := range w.model.cats {
		w.pools.cats = append(w.pools.cats, cat)
	}
	sort.Strings(w.pools.cats)
	w.pools.sources = []string{"src"}
	return w
}

func genWorld(t *rapid.T, cfg worldConfig) *world {
	if cfg.clock == nil {
		cfg.clock = &worldClock{now: baseTime, prefix: "M"}
	}
	ff := &fakeFactory{}
	w := &world{
		col:   trc.NewCollector(trc.CollectorConfig{Source: cfg.source, NewTrace: ff.new}),
		model: &modelCollector{source: cfg.source, cats: map[string][]trc.Trace{}},
	}
	capacity := 1000
	if cfg.capacity > 0 {
		capacity = cfg.capacity
		w.col.SetCategorySize(capacity)
	}
	n := rapid.IntRange(cfg.minN, cfg.maxN).Draw(t, "ntraces")
	if cfg.maxEvents == 0 {
		cfg.maxEvents = 3
	}
	uniform, offset := rapid.SampledFrom([]int{-1, -1, -1, -1, 0, 1, 2}).Draw(t, "uniform"), rapid.IntRange(0, cfg.maxEvents).Draw(t, "offset")
	for i := 0; i < n; i++ {
		started, id := cfg.clock.next(t, cfg.source)
		ft := &fakeTrace{id: id, started: started, duration: genDuration().Draw(t, "duration")}
		ff.next = ft
		cat := cfg.cats[i%len(cfg.cats)]
		if len(cfg.cats) < 10 {
			cat = rapid.SampledFrom(cfg.cats).Draw(t, "cat")
		}
		_, tr := w.col.NewTrace(bg, cat)
		bits := uniform
		if bits < 0 {
			bits = rapid.IntRange(0, 5).Draw(t, "state")
		}
		ft.finished = bits != 0
		ft.errored = bits == 1 || bits == 5 || (bits == 0 && i%3 == 0)
		if cfg.plain {
			for j := 0; j < (i+offset)%(cfg.maxEvents+1); j++ {
				ft.events = append(ft.events, trc.Event{When: started, What: fmt.Sprintf("ev %d foo%d", j, i%7)})
			}
		} else {
			ft.events = rapid.SliceOfN(genEvent(started), 0, cfg.maxEvents).Draw(t, "events")
		}
		if len(ft.events) > 0 && seldom(t, "many") {
			for j, n := 0, rapid.SampledFrom([]int{9, 11, 25, 60, 130, 260, 700}).Draw(t, "nevents"); len(ft.events) < n; j++ {
				ft.events = append(ft.events, trc.Event{When: started, What: fmt.Sprintf("many %d", j)})
			}
		}
		w.all = append(w.all, ft)
		w.pools.ids = append(w.pools.ids, id)
		w.model.cats[cat] = append(w.model.cats[cat], ft)
		if c := w.model.cats[cat]; len(c) > capacity {
			w.model.cats[cat] = c[1:]
		}
		_ = tr
	}
	w.pools.cats = cfg.cats
	w.pools.sources = []string{cfg.source}
	return w
}
