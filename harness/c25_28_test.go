package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"net/http/httptrace"
	"net/textproto"
	"net/url"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"github.com/peterbourgon/trc/trcweb"
	"pgregory.net/rapid"
)

// ---- C25 ------------------------------------------------------------------

// respOp is one thing a handler does with its response writer.
type respOp struct {
	kind string // header, code, write, flush, trace, read, panic
	key  string
	val  string
	code int
	n    int
}

func genRespOps(rt *rapid.T, real bool) []respOp {
	var ops []respOp
	kinds := []string{"header", "code", "code", "write", "write", "flush", "trace", "read", "copy", "add"}
	codes := []int{200, 200, 201, 204, 301, 304, 400, 404, 418, 500, 503, 599, 299, 100, 103, 102, 199, 999}
	if !real {
		kinds = append(kinds, "panic")
	} else {
		codes = codes[:len(codes)-1]
	}
	for i, n := 0, rapid.IntRange(0, 6).Draw(rt, "nops"); i < n; i++ {
		op := respOp{kind: rapid.SampledFrom(kinds).Draw(rt, "kind")}
		switch op.kind {
		case "header", "add":
			op.key = rapid.SampledFrom([]string{"X-A", "X-B", "Content-Type", "Etag", "Trailer"}).Draw(rt, "key")
			op.val = rapid.SampledFrom([]string{"a", "text/plain", "X-C", `"q"`}).Draw(rt, "val")
			if op.key == "Trailer" && real {
				op.key = "X-T"
			}
		case "code":
			op.code = rapid.SampledFrom(codes).Draw(rt, "code")
			if real && op.code == 100 { // handled by the HTTP client itself
				op.code = 103
			}
		case "write", "copy":
			op.n = rapid.SampledFrom([]int{0, 1, 5, 100, 1023, 1024, 1025, 5000, 102399, 102400, 200000}).Draw(rt, "n")
		}
		ops = append(ops, op)
	}
	return ops
}

// run executes the operations. It returns the number of body bytes accepted, and
// the error texts of the writes.
func runRespOps(ops []respOp, w http.ResponseWriter, r *http.Request) (written int, results []string) {
	for i, op := range ops {
		switch op.kind {
		case "header":
			w.Header().Set(op.key, op.val)
		case "add":
			w.Header().Add(op.key, op.val)
		case "code":
			w.WriteHeader(op.code)
		case "write":
			n, err := w.Write(bytes.Repeat([]byte{'a' + byte(i)}, op.n))
			written += n
			results = append(results, fmt.Sprint(n, err))
		case "copy":
			n, err := io.Copy(w, strings.NewReader(strings.Repeat(string(rune('A'+i)), op.n)))
			written += int(n)
			results = append(results, fmt.Sprint(n, err))
		case "flush":
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
		case "read":
			buf, err := io.ReadAll(r.Body)
			results = append(results, fmt.Sprint(string(buf), err))
		case "trace":
			if tr, ok := trc.MaybeGet(r.Context()); ok {
				tr.Tracef("handler %d", i)
			}
		case "panic":
			panic(fmt.Sprint("panic ", i))
		}
	}
	return written, results
}

// bytesMatch says if s is a human-friendly form of n bytes.
func bytesMatch(s string, n int) error {
	var f float64
	unit := 1.0
	num := s
	switch {
	case strings.HasSuffix(s, "KB"):
		unit, num = 1024, strings.TrimSuffix(s, "KB")
	case strings.HasSuffix(s, "MB"):
		unit, num = 1024*1024, strings.TrimSuffix(s, "MB")
	case strings.HasSuffix(s, "B"):
		num = strings.TrimSuffix(s, "B")
	default:
		return fmt.Errorf("%q has no unit", s)
	}
	if _, err := fmt.Sscanf(num, "%g", &f); err != nil {
		return fmt.Errorf("%q: %v", s, err)
	}
	tolerance := 0.0501 * unit
	if !strings.Contains(num, ".") {
		tolerance = 0.501 * unit
	}
	if unit == 1 {
		tolerance = 0
	}
	if diff := f*unit - float64(n); diff > tolerance || diff < -tolerance {
		return fmt.Errorf("%q isn't %d bytes", s, n)
	}
	return nil
}

// flushRecorder also records when flushes and codes happened.
type flushRecorder struct {
	*httptest.ResponseRecorder
	log   []string
	limit int // if positive, then writes fail after that many bytes
	n     int
}

func (fr *flushRecorder) WriteHeader(code int) {
	fr.log = append(fr.log, fmt.Sprint("code ", code))
	if code >= 200 { // the recorder doesn't support informational responses
		fr.ResponseRecorder.WriteHeader(code)
	}
}
func (fr *flushRecorder) Write(p []byte) (int, error) {
	fr.log = append(fr.log, fmt.Sprint("write ", len(p)))
	var fail error
	if room := fr.limit - fr.n; fr.limit > 0 && len(p) > room {
		p, fail = p[:room], errors.New("connection lost")
	}
	n, err := fr.ResponseRecorder.Write(p)
	fr.n += n
	if err == nil {
		err = fail
	}
	return n, err
}
func (fr *flushRecorder) WriteString(s string) (int, error) { return fr.Write([]byte(s)) }
func (fr *flushRecorder) Flush() {
	fr.log = append(fr.log, "flush")
	fr.ResponseRecorder.Flush()
}

// plainWriter has no Flush method.
type plainWriter struct{ http.ResponseWriter }

func verifyMiddlewareEvents(rt *rapid.T, tr trc.Trace, r *http.Request, handler []string, code, written int, lo, hi time.Duration) {
	rt.Helper()
	want := []string{r.RemoteAddr + " " + r.Method + " " + r.URL.String()}
	for _, h := range []string{"User-Agent", "Accept", "Content-Type"} {
		if v := r.Header.Get(h); v != "" {
			want = append(want, h+": "+v)
		}
	}
	want = append(want, handler...)
	evs := tr.Events()
	if len(evs) != len(want)+1 {
		rt.Fatalf("%d events, want %d: %v", len(evs), len(want)+1, evs)
	}
	for i, w := range want {
		if evs[i].What != w || evs[i].IsError {
			rt.Fatalf("event %d is %q (error %v), want %q", i, evs[i].What, evs[i].IsError, w)
		}
	}
	last := evs[len(evs)-1].What
	parts := strings.Split(last, ", ")
	if len(parts) != 3 {
		rt.Fatalf("last event is %q", last)
	}
	if code > 0 && parts[0] != fmt.Sprintf("HTTP %d", code) {
		rt.Fatalf("last event is %q, want code %d", last, code)
	}
	if err := bytesMatch(parts[1], written); err != nil {
		rt.Fatalf("last event is %q: %v", last, err)
	}
	if err := humanizedOK(parts[2], lo, hi); err != nil {
		rt.Fatalf("last event is %q: %v", last, err)
	}
	if !tr.Finished() {
		rt.Fatalf("trace isn't finished")
	}
}

// makeTraceIn makes a trace as middleware constructors do.
func makeTraceIn(ctx context.Context, kind string) (context.Context, trc.Trace) {
	ident := func(tr trc.Trace) trc.Trace { return struct{ trc.Trace }{tr} }
	switch kind {
	case "core":
		return trc.New(ctx, "src", "cat")
	case "decorated":
		return trc.New(ctx, "src", "cat", ident, trc.LogDecorator(io.Discard))
	case "collector":
		return trc.NewDefaultCollector().NewTrace(ctx, "cat")
	case "collector+log":
		return trc.NewCollector(trc.CollectorConfig{Decorators: []trc.DecoratorFunc{trc.LogDecorator(io.Discard), ident}}).NewTrace(ctx, "cat")
	case "fake":
		return trc.Put(ctx, &fakeTrace{id: "fake", category: "cat"})
	default: // a context of its own
		ctx, tr := trc.New(ctx, "src", "cat")
		ctx, cancel := context.WithCancel(ctx)
		cancel()
		return ctx, tr
	}
}

func TestC25(t *testing.T) {
	// finalCode is the code of the response.
	finalCode := func(ops []respOp) int {
		for _, op := range ops {
			switch {
			case op.kind == "code" && op.code >= 200:
				return op.code
			case op.kind == "code" && op.code == 101:
				return op.code
			case op.kind == "write" || op.kind == "copy" && op.n > 0 || op.kind == "flush":
				return 200
			}
		}
		return 200
	}

	check(t, "recorded", "generated requests to handlers that make generated calls on their response writer (headers, final, informational and repeated codes, writes of all sizes, io.Copy, flushes, reads of the body), trace, and panic, with and without the middleware, on response writers with and without flush support, some of which fail after a number of bytes; calls made on the response writer, the response, panics, and the request as seen by the handler are the same, and the trace has the expected events; non-trivial: at least 2 operations", 600, func(rt *rapid.T, k *kase) {
		ops := genRespOps(rt, false)
		method := rapid.SampledFrom([]string{"GET", "POST", "HEAD", "PUT", "WEIRD"}).Draw(rt, "method")
		path := rapid.SampledFrom([]string{"/", "/a/b", "/日本", "/%41", "", "*"}).Draw(rt, "path")
		query := rapid.SampledFrom([]string{"", "a=b&c=%20", "%zz", "q=%s%d"}).Draw(rt, "query")
		header := map[string]string{}
		for _, h := range []string{"User-Agent", "Accept", "Content-Type", "X-Other", "Accept-Encoding", "Range", "Authorization", "Cookie", "If-None-Match", "Connection", "Expect", "X-Forwarded-For", "Te"} {
			if rapid.Bool().Draw(rt, h) {
				header[h] = rapid.SampledFrom([]string{"x", "text/html, */*;q=0.1", "*/*", "gzip", "100%", "%s %d", "curl/8.0", "text/event-stream", "application/json; charset=utf-8", strings.Repeat("long ", 100)}).Draw(rt, "val")
			}
		}
		multi := rapid.Bool().Draw(rt, "multi")
		limit := 0
		if rapid.IntRange(0, 4).Draw(rt, "fail") == 0 {
			limit = rapid.SampledFrom([]int{1, 3, 99, 1024, 5003, 150000}).Draw(rt, "limit")
			k.label(true, "failing writer")
		}
		body := genText().Draw(rt, "body")
		flusher := rapid.IntRange(0, 4).Draw(rt, "flusher") > 0
		sleep := time.Duration(0)
		if rapid.IntRange(0, 199).Draw(rt, "sleep") == 0 {
			sleep = 12 * time.Millisecond
		}
		k.notef("%s %q ?%s %v %+v flusher=%v", method, path, query, header, ops, flusher)
		k.interesting(len(ops) >= 2)

		type outcome struct {
			log      []string
			code     int
			header   http.Header
			body     string
			panicked any
			results  []string
			seen     string
			written  int
		}
		type ctxVal struct{}
		var tr trc.Trace
		var inHandler time.Duration
		run := func(wrap func(http.Handler) http.Handler) (o outcome, r *http.Request) {
			h := wrap(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				begin := time.Now()
				defer func() { inHandler = time.Since(begin) }()
				tr, _ = trc.MaybeGet(r.Context())
				if tr != nil && tr.Finished() {
					rt.Errorf("trace is finished already")
				}
				o.seen = fmt.Sprint(r.Method, r.URL, r.Header, r.RemoteAddr, r.Host, r.Proto, r.RequestURI, r.ContentLength, r.Trailer, r.TransferEncoding, r.Close, r.Pattern, r.Context().Value(ctxVal{}))
				time.Sleep(sleep)
				defer func(w http.ResponseWriter) {}(w)
				o.written, o.results = runRespOpsCounting(ops, w, r, &o.written)
			}))
			rec := &flushRecorder{ResponseRecorder: httptest.NewRecorder(), limit: limit}
			var w http.ResponseWriter = rec
			if !flusher {
				w = plainWriter{rec}
			}
			r = newRequest(context.WithValue(bg, ctxVal{}, "val"), method, path, query, header, strings.NewReader(body))
			if multi {
				r.Header.Add("X-Multi", "1")
				r.Header.Add("X-Multi", "2")
				r.Header.Add("Cookie", "c=d")
				r.Trailer = http.Header{"X-Trailer": nil}
				r.TransferEncoding = []string{"chunked"}
				r.Close = true
				r.Pattern = "/pattern"
			}
			func() {
				defer func() { o.panicked = recover() }()
				h.ServeHTTP(w, r)
			}()
			res := rec.Result()
			buf, _ := io.ReadAll(res.Body)
			o.log, o.code, o.header, o.body = rec.log, res.StatusCode, res.Header, string(buf)
			return o, r
		}
		want, _ := run(func(h http.Handler) http.Handler { return h })
		if tr != nil {
			panic("HARNESS-ERROR: trace without middleware")
		}
		col := trc.NewCollector(trc.CollectorConfig{Source: "src"})
		cat := genName().Draw(rt, "cat")
		categorized := 0
		begin := time.Now()
		have, r := run(trcweb.Middleware(col.NewTrace, func(r *http.Request) string {
			categorized++
			if r.Method != method {
				rt.Errorf("categorize got method %q", r.Method)
			}
			return cat
		}))
		took := time.Since(begin)
		if !reflect.DeepEqual(have, want) {
			rt.Fatalf("with the middleware:\n%+v\nwithout:\n%+v", clip(fmt.Sprintf("%+v", have)), clip(fmt.Sprintf("%+v", want)))
		}
		if categorized != 1 {
			rt.Fatalf("categorize was called %d times", categorized)
		}
		if tr == nil {
			rt.Fatalf("the handler's context has no trace")
		}
		res, err := col.Search(bg, &trc.SearchRequest{})
		if err != nil || res.TotalCount != 1 || res.Traces[0].TraceID != tr.ID() || res.Traces[0].TraceCategory != cat {
			rt.Fatalf("collector has %d traces, of category %q, want the one of category %q (%v)", res.TotalCount, tr.Category(), cat, err)
		}
		var handler []string
		for i, op := range ops {
			if op.kind == "panic" {
				break
			}
			if op.kind == "trace" {
				handler = append(handler, fmt.Sprint("handler ", i))
			}
		}
		code := finalCode(ops)
		if want.panicked != nil {
			k.label(true, "panic")
			executed := 0
			for ops[executed].kind != "panic" {
				executed++
			}
			code = 0 // unknown, unless something was sent
			for _, op := range ops[:executed] {
				if op.kind == "code" && op.code >= 200 || op.kind == "write" || op.kind == "copy" && op.n > 0 || op.kind == "flush" {
					code = finalCode(ops[:executed])
				}
			}
		}
		if !flusher { // flushing has no effect, so may or may not count as sending the response
			for _, op := range ops {
				if op.kind == "flush" {
					code = 0
				}
			}
		}
		verifyMiddlewareEvents(rt, tr, r, handler, code, want.written, inHandler, took)
	})

	check(t, "constructors", "requests through one or two middlewares, with constructors that make traces in different ways (in a collector, also one with decorators, with New, or by other means, or add to a trace that's in the context of the request already); the handler's context has the trace made by the innermost constructor, and all of them are finished when the handler has returned or panicked, but not before; non-trivial: there are two middlewares, or there was a trace", 100, func(rt *rapid.T, k *kase) {
		ctx := bg
		existing := rapid.Bool().Draw(rt, "existing")
		if existing {
			ctx, _ = makeTraceIn(ctx, rapid.SampledFrom([]string{"core", "decorated", "collector"}).Draw(rt, "outer"))
		}
		panics := rapid.IntRange(0, 3).Draw(rt, "panics") == 0
		n := rapid.IntRange(1, 2).Draw(rt, "middlewares")
		var made []trc.Trace
		served := false
		var h http.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			served = true
			tr, ok := trc.MaybeGet(r.Context())
			if !ok || len(made) != n || tr.ID() != made[n-1].ID() {
				rt.Errorf("the handler's context doesn't have the trace of the innermost of %d constructors", len(made))
			}
			for i, tr := range made {
				if tr.Finished() {
					rt.Errorf("trace %d is finished before the handler has returned", i)
				}
			}
			if panics {
				panic("handler")
			}
		})
		for i := 0; i < n; i++ {
			kind := rapid.SampledFrom([]string{"core", "decorated", "collector", "collector+log", "fake", "canceled"}).Draw(rt, "constructor")
			k.notef("%s", kind)
			h = trcweb.Middleware(func(ctx context.Context, cat string) (context.Context, trc.Trace) {
				ctx, tr := makeTraceIn(ctx, kind)
				made = append(made, tr)
				return ctx, tr
			}, func(*http.Request) string { return "cat" })(h)
		}
		k.notef("existing=%v panics=%v", existing, panics)
		k.interesting(existing || n > 1)
		k.label(panics, "panic")
		func() {
			defer func() { recover() }()
			h.ServeHTTP(httptest.NewRecorder(), newRequest(ctx, "GET", "/", "", nil, nil))
		}()
		if !served {
			rt.Fatalf("the handler wasn't called")
		}
		for i, tr := range made {
			if !tr.Finished() {
				rt.Fatalf("trace %d isn't finished", i)
			}
		}
	})

	checkN(t, "served", "as before, with a real HTTP server and client: code, headers, body, and informational responses arrive as without the middleware, and handlers that abort the connection still do so; concurrent requests each have their own trace; non-trivial: at least 2 operations", 600, 10000, func(rt *rapid.T, k *kase) {
		n := rapid.IntRange(1, 3).Draw(rt, "requests")
		var opss [][]respOp
		var methods []string
		for i := 0; i < n; i++ {
			ops := genRespOps(rt, true)
			methods = append(methods, rapid.SampledFrom([]string{"GET", "GET", "HEAD"}).Draw(rt, "method"))
			opss = append(opss, ops)
			k.notef("%+v", ops)
			k.interesting(len(ops) >= 2)
		}
		abort := rapid.IntRange(0, 9).Draw(rt, "abort") == 0
		k.label(abort, "abort")
		var mtx sync.Mutex
		traces := map[int]trc.Trace{}
		writtens := map[int]int{}
		handler := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			var i int
			fmt.Sscanf(r.URL.Path, "/%d", &i)
			if tr, ok := trc.MaybeGet(r.Context()); ok {
				mtx.Lock()
				traces[i] = tr
				mtx.Unlock()
			}
			written := 0
			defer func() {
				mtx.Lock()
				writtens[i] = written
				mtx.Unlock()
			}()
			runRespOpsCounting(opss[i], w, r, &written)
			if abort {
				panic(http.ErrAbortHandler)
			}
		})
		type result struct {
			code   int
			header []string
			body   string
			infos  []int
			failed bool
		}
		get := func(uri string, i int) (res result) {
			trace := &httptrace.ClientTrace{Got1xxResponse: func(code int, _ textproto.MIMEHeader) error {
				res.infos = append(res.infos, code)
				return nil
			}}
			req, err := http.NewRequestWithContext(httptrace.WithClientTrace(bg, trace), methods[i], fmt.Sprint(uri, "/", i), nil)
			must(err)
			rsp, err := noRedirects.Do(req)
			if err != nil {
				res.failed = true
				return res
			}
			defer rsp.Body.Close()
			buf, err := io.ReadAll(rsp.Body)
			res.failed = err != nil
			res.code, res.body = rsp.StatusCode, string(buf)
			for h, v := range rsp.Header {
				if h != "Date" {
					res.header = append(res.header, fmt.Sprint(h, v))
				}
			}
			sort.Strings(res.header)
			if res.failed { // how much arrived isn't determined
				return result{failed: true}
			}
			return res
		}
		col := trc.NewCollector(trc.CollectorConfig{Source: "src"})
		plain := httptest.NewUnstartedServer(handler)
		plain.Config.ErrorLog = discardLogger
		plain.Start()
		defer closeServer(plain)
		traced := httptest.NewUnstartedServer(trcweb.Middleware(col.NewTrace, func(r *http.Request) string { return r.URL.Path })(handler))
		traced.Config.ErrorLog = discardLogger
		traced.Start()
		defer closeServer(traced)
		want := make([]result, n)
		for i := range want {
			want[i] = get(plain.URL, i)
		}
		// The client may have its response before the handler returns.
		var wantWritten map[int]int
		if !eventually(waitLimit, func() bool {
			mtx.Lock()
			defer mtx.Unlock()
			wantWritten = writtens
			return len(writtens) == n
		}) {
			rt.Fatalf("HARNESS-ERROR: handlers without middleware don't return")
		}
		mtx.Lock()
		writtens = map[int]int{}
		mtx.Unlock()
		have := make([]result, n)
		finishes(rt, "requests", func() {
			var wg sync.WaitGroup
			for i := range have {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					have[i] = get(traced.URL, i)
				}(i)
			}
			wg.Wait()
		})
		for i := range want {
			if !reflect.DeepEqual(have[i], want[i]) {
				rt.Fatalf("with the middleware:\n%s\nwithout:\n%s", clip(fmt.Sprintf("%+v", have[i])), clip(fmt.Sprintf("%+v", want[i])))
			}
			k.label(len(want[i].infos) > 0, "informational")
		}
		for i := range opss {
			mtx.Lock()
			tr := traces[i]
			mtx.Unlock()
			if tr == nil {
				rt.Fatalf("the handler's context has no trace")
			}
			if !eventually(waitLimit, tr.Finished) { // after the client has the response
				rt.Fatalf("trace isn't finished")
			}
			evs := tr.Events()
			last := evs[len(evs)-1].What
			if !abort && !want[i].failed {
				if !strings.HasPrefix(last, fmt.Sprintf("HTTP %d, ", want[i].code)) {
					rt.Fatalf("last event is %q, want code %d", last, want[i].code)
				}
			}
			parts := strings.Split(last, ", ")
			if len(parts) != 3 {
				rt.Fatalf("last event is %q", last)
			}
			if err := bytesMatch(parts[1], wantWritten[i]); err != nil {
				rt.Fatalf("last event is %q: %v", last, err)
			}
			if tr.Category() != fmt.Sprint("/", i) {
				rt.Fatalf("trace of request %d has category %q", i, tr.Category())
			}
		}
		res, err := col.Search(bg, &trc.SearchRequest{})
		if err != nil || res.TotalCount != n {
			rt.Fatalf("%d traces, want %d (%v)", res.TotalCount, n, err)
		}
	})
}

// runRespOpsCounting is like runRespOps, but counts bytes also if it panics.
func runRespOpsCounting(ops []respOp, w http.ResponseWriter, r *http.Request, written *int) (int, []string) {
	var results []string
	for i := range ops {
		n, res := runRespOpsAt(ops, i, w, r)
		*written += n
		results = append(results, res...)
	}
	return *written, results
}

func runRespOpsAt(ops []respOp, i int, w http.ResponseWriter, r *http.Request) (int, []string) {
	one := make([]respOp, i+1)
	for j := range one[:i] {
		one[j] = respOp{kind: "none"}
	}
	one[i] = ops[i]
	return runRespOps(one, w, r)
}

// ---- C26 ------------------------------------------------------------------

// callers are the frames from the caller's caller up.
func callers() []trc.Frame {
	pc := make([]uintptr, 100)
	frames := runtime.CallersFrames(pc[:runtime.Callers(3, pc)])
	var res []trc.Frame
	for {
		fr, more := frames.Next()
		res = append(res, trc.Frame{Function: fr.Function, FileLine: fmt.Sprintf("%s:%d", fr.File, fr.Line)})
		if !more {
			return res
		}
	}
}

type recorder struct{ want []trc.Frame }

//go:noinline
func (r *recorder) here() { r.want = callers() }

// Each way of making an event is on the same line as the recording of frames.
var eventWays = []struct {
	name string
	do   func(ctx context.Context, r *recorder)
}{
	{"Tracef", func(ctx context.Context, r *recorder) { r.here(); trc.Get(ctx).Tracef("x %d", 1) }},
	{"LazyTracef", func(ctx context.Context, r *recorder) { r.here(); trc.Get(ctx).LazyTracef("x %d", 1) }},
	{"Errorf", func(ctx context.Context, r *recorder) { r.here(); trc.Get(ctx).Errorf("x %d", 1) }},
	{"LazyErrorf", func(ctx context.Context, r *recorder) { r.here(); trc.Get(ctx).LazyErrorf("x %d", 1) }},
	{"eztrc.Tracef", func(ctx context.Context, r *recorder) { r.here(); eztrc.Tracef(ctx, "x %d", 1) }},
	{"eztrc.LazyTracef", func(ctx context.Context, r *recorder) { r.here(); eztrc.LazyTracef(ctx, "x %d", 1) }},
	{"eztrc.Errorf", func(ctx context.Context, r *recorder) { r.here(); eztrc.Errorf(ctx, "x %d", 1) }},
	{"eztrc.LazyErrorf", func(ctx context.Context, r *recorder) { r.here(); eztrc.LazyErrorf(ctx, "x %d", 1) }},
	{"eztrc.Get.Tracef", func(ctx context.Context, r *recorder) { r.here(); eztrc.Get(ctx).Tracef("x") }},
	{"Region", func(ctx context.Context, r *recorder) { r.here(); trc.Region(ctx, "region") }},
	{"eztrc.Region", func(ctx context.Context, r *recorder) { r.here(); eztrc.Region(ctx, "region") }},
	{"myTracef", func(ctx context.Context, r *recorder) { myTracef(ctx, r) }},
	{"myRegion", func(ctx context.Context, r *recorder) { myRegion(ctx, r) }},
	{"user Tracef", func(ctx context.Context, r *recorder) { (&userTrace{ctx}).Tracef(r) }},
	{"user LazyTracef", func(ctx context.Context, r *recorder) { (&userTrace{ctx}).LazyTracef(r) }},
	{"user Errorf", func(ctx context.Context, r *recorder) { userTrace{ctx}.Errorf(r) }},
	{"user LazyErrorf", func(ctx context.Context, r *recorder) { userTrace{ctx}.LazyErrorf(r) }},
	{"user Region", func(ctx context.Context, r *recorder) { userTrace{ctx}.Region(r) }},
	{"Tracef", func(ctx context.Context, r *recorder) { Tracef(ctx, r) }},
	{"Prefix", func(ctx context.Context, r *recorder) { Prefix(ctx, r) }},
	{"generic Errorf", func(ctx context.Context, r *recorder) { Errorf(ctx, r) }},
	{"nested Errorf", func(ctx context.Context, r *recorder) { userTrace{ctx}.nested(r) }},
	{"method value", func(ctx context.Context, r *recorder) { f := trc.Get(ctx).Errorf; r.here(); f("x") }},
}

//go:noinline
func myTracef(ctx context.Context, r *recorder) { r.here(); trc.Get(ctx).Tracef("x") }

//go:noinline
func myRegion(ctx context.Context, r *recorder) { r.here(); trc.Region(ctx, "mine") }

// userTrace, and the functions after it, are user code whose functions have the
// same names as those which make events.
type userTrace struct{ ctx context.Context }

//go:noinline
func (u *userTrace) Tracef(r *recorder) { r.here(); trc.Get(u.ctx).Tracef("x") }

//go:noinline
func (u *userTrace) LazyTracef(r *recorder) { r.here(); trc.Get(u.ctx).LazyErrorf("x") }

//go:noinline
func (u userTrace) Errorf(r *recorder) { r.here(); trc.Get(u.ctx).Errorf("x") }

//go:noinline
func (u userTrace) LazyErrorf(r *recorder) { r.here(); eztrc.LazyTracef(u.ctx, "x") }

//go:noinline
func (u userTrace) Region(r *recorder) { r.here(); eztrc.Region(u.ctx, "x") }

//go:noinline
func (u userTrace) nested(r *recorder) {
	Errorf := func() { r.here(); eztrc.Errorf(u.ctx, "x") }
	func() { Errorf() }()
}

//go:noinline
func Tracef(ctx context.Context, r *recorder) { r.here(); eztrc.Tracef(ctx, "x") }

//go:noinline
func Prefix(ctx context.Context, r *recorder) { r.here(); trc.Get(ctx).Tracef("x") }

//go:noinline
func Errorf[T context.Context](ctx T, r *recorder) { r.here(); trc.Get(ctx).Errorf("x") }

type deepT struct{ ctx context.Context }

// Errorf is user code that happens to have the name of an event method.
//
//go:noinline
func (d *deepT) Errorf(depth, way int, r *recorder) {
	if depth > 0 {
		d.other(depth-1, way, r)
		return
	}
	eventWays[way].do(d.ctx, r)
}

//go:noinline
func (d *deepT) other(depth, way int, r *recorder) {
	if depth > 0 {
		func() { d.Errorf(depth-1, way, r) }()
		return
	}
	eventWays[way].do(d.ctx, r)
}

func TestC26(t *testing.T) {
	check(t, "call-sites", "events made in one of 23 ways (event methods, eztrc functions, regions, user functions with similar names, method values) from call stacks of generated depth, on traces made in one of seven ways and wrapped by up to 4 prefixes, regions and log decorators, with stacks enabled and disabled at any time; stacks are compared with runtime.Callers on the same line; non-trivial: stacks are enabled, and there's a wrapper or an extra call frame", 1200, func(rt *rapid.T, k *kase) {
		defer trc.SetTraceStacks(true)
		type traced struct {
			m        *traceMaker
			ctx      context.Context
			stacks   bool
			wants    [][]trc.Frame
			wrappers int
			maxWrap  int
		}
		var traces []*traced
		enabled := true
		for i, n := 0, rapid.IntRange(2, 14).Draw(rt, "ops"); i < n; i++ {
			op := rapid.IntRange(0, 9).Draw(rt, "op")
			switch {
			case op == 0 || len(traces) == 0:
				kind := rapid.SampledFrom(makerKinds).Draw(rt, "kind")
				m := makeTrace(kind, "src", "cat")
				defer m.cancel()
				wr := map[string]int{"decorated": 1, "collector": 1, "collector+log": 2, "collector+sub": 1}[kind]
				traces = append(traces, &traced{m: m, ctx: m.ctx, stacks: enabled, wrappers: wr})
				k.notef("new %s", kind)
			case op == 1 || op == 2:
				tr := traces[rapid.IntRange(0, len(traces)-1).Draw(rt, "which")]
				if tr.wrappers >= 4 {
					continue
				}
				tr.wrappers++
				switch rapid.IntRange(0, 2).Draw(rt, "wrap") {
				case 0:
					tr.ctx, _ = trc.Prefix(tr.ctx, "pfx %d", 1)
				case 1:
					tr.ctx, _ = eztrc.Prefix(tr.ctx, "pfx %d", 1)
				case 2:
					tr.ctx, _ = trc.Put(tr.ctx, trc.LogDecorator(io.Discard)(trc.Get(tr.ctx)))
				}
				k.notef("wrap")
			case op == 3:
				enabled = rapid.Bool().Draw(rt, "enabled")
				trc.SetTraceStacks(enabled)
				k.notef("stacks=%v", enabled)
			case op == 4: // the end of a region
				tr := traces[rapid.IntRange(0, len(traces)-1).Draw(rt, "which")]
				var finish func()
				r := &recorder{}
				if rapid.Bool().Draw(rt, "ez") {
					_, _, finish = eztrc.Region(tr.ctx, "r")
				} else {
					_, _, finish = trc.Region(tr.ctx, "r")
				}
				tr.wants = append(tr.wants, nil) // the beginning isn't checked here
				func() { r.here(); finish() }()
				tr.wants = append(tr.wants, r.want)
				k.notef("finish region")
			default:
				tr := traces[rapid.IntRange(0, len(traces)-1).Draw(rt, "which")]
				depth := rapid.IntRange(0, 9).Draw(rt, "depth")
				way := rapid.IntRange(0, len(eventWays)-1).Draw(rt, "way")
				k.notef("%s depth %d", eventWays[way].name, depth)
				k.interesting(tr.stacks && (tr.wrappers > 0 || depth > 0))
				r := &recorder{}
				d := &deepT{tr.ctx}
				if rapid.Bool().Draw(rt, "goroutine") {
					done := make(chan struct{})
					go func() { defer close(done); d.other(depth, way, r) }()
					<-done
				} else {
					d.Errorf(depth, way, r)
				}
				tr.wants = append(tr.wants, r.want)
				if rapid.IntRange(0, 3).Draw(rt, "read") == 0 {
					tr.m.tr.Events()
				}
			}
		}
		for _, tr := range traces {
			evs := tr.m.tr.Events()
			if len(evs) != len(tr.wants) {
				rt.Fatalf("%d events, want %d", len(evs), len(tr.wants))
			}
			for i, want := range tr.wants {
				have := evs[i].Stack
				if !tr.stacks {
					if len(have) > 0 {
						rt.Fatalf("event %d has a stack, although they were disabled when the trace was created", i)
					}
					continue
				}
				if len(have) == 0 {
					rt.Fatalf("event %d (%q) has no stack", i, evs[i].What)
				}
				if want == nil {
					continue
				}
				for j := range have {
					if j >= len(want) || have[j] != want[j] {
						rt.Fatalf("event %d (%q), frame %d: %v, want %v (%d wrappers)", i, evs[i].What, j, have[j], want[j], tr.wrappers)
					}
				}
				if len(have) < 2 && len(want) > 3 && tr.wrappers <= 2 {
					rt.Fatalf("event %d (%q): stack has just %d of %d frames", i, evs[i].What, len(have), len(want))
				}
			}
		}
	})

	check(t, "compact", "generated frames, and real ones; CompactFileLine is compared with a reference implementation; non-trivial: function and file have a path", 2000, func(rt *rapid.T, k *kase) {
		var fr trc.Frame
		switch rapid.IntRange(0, 2).Draw(rt, "kind") {
		case 0:
			fr = genFrame().Draw(rt, "frame")
		case 1:
			elem := rapid.SampledFrom([]string{"a", "b.c", "github.com", "pkg.(*T).F", "", "日本"})
			fr.Function = strings.Join(rapid.SliceOfN(elem, 0, 5).Draw(rt, "function"), "/")
			fr.FileLine = strings.Join(rapid.SliceOfN(elem, 0, 5).Draw(rt, "file"), "/") + rapid.SampledFrom([]string{":12", "", ":", ":1:2"}).Draw(rt, "line")
		case 2:
			_, tr := trc.New(bg, "s", "c")
			tr.Tracef("x")
			fr = rapid.SampledFrom(tr.Events()[0].Stack).Draw(rt, "frame")
		}
		k.notef("%q", fr)
		k.interesting(strings.Contains(fr.Function, "/") && strings.Contains(fr.FileLine, "/"))
		if have, want := fr.CompactFileLine(), modelCompact(fr); have != want {
			rt.Fatalf("%q: %q, want %q", fr, have, want)
		}
	})
}

// ---- C27 ------------------------------------------------------------------

// cellArg is an argument that's formatted as its current value.
type cellArg struct{ n int }

func (c *cellArg) String() string { return fmt.Sprint(c.n) }

func TestC27(t *testing.T) {
	check(t, "differential", "random programs over a tree of contexts (new traces, events of all kinds, also without a trace, regions, prefixes, nested new traces, gets, reads, finishes, derived and canceled contexts, arguments that change their value) run against eztrc and against trc with a collector; the resulting traces have the same events and status, are in the respective collector, and those of eztrc are visible via its handler; non-trivial: at least 3 events", 400, func(rt *rapid.T, k *kase) {
		col := trc.NewCollector(trc.CollectorConfig{Source: "default"})
		eztrc.Collector().SetCategorySize(1).SetCategorySize(1000) // room for every new trace
		before, err := eztrc.Collector().Search(bg, &trc.SearchRequest{Limit: 1})
		if err != nil {
			rt.Fatal(err)
		}
		type node struct {
			a, b   context.Context // eztrc, trc
			depth  int
			finish []func()
		}
		nodes := []*node{{a: bg, b: bg}}
		type pair struct{ a, b trc.Trace }
		var pairs []pair
		nevents := 0
		cell := &cellArg{}
		for i, n := 0, rapid.IntRange(3, 25).Draw(rt, "ops"); i < n; i++ {
			p := nodes[rapid.IntRange(0, len(nodes)-1).Draw(rt, "node")]
			switch op := rapid.IntRange(0, 12).Draw(rt, "op"); op {
			case 10: // what lazy events show depends on when they're first read
				cell.n++
				k.notef("cell %d", cell.n)
			case 11:
				if len(pairs) > 0 {
					j := rapid.IntRange(0, len(pairs)-1).Draw(rt, "read")
					k.notef("read %d", j)
					pairs[j].a.Events()
					pairs[j].b.Events()
				}
			case 12:
				actx, acancel := context.WithCancel(p.a)
				bctx, bcancel := context.WithCancel(p.b)
				defer acancel()
				defer bcancel()
				if rapid.Bool().Draw(rt, "cancel") {
					acancel()
					bcancel()
				}
				k.notef("derived context, %v", actx.Err())
				nodes = append(nodes, &node{a: actx, b: bctx, depth: p.depth})
			case 0, 1:
				cat := genName().Draw(rt, "cat")
				k.notef("new %q", cat)
				_, had := trc.MaybeGet(p.b)
				actx, atr := eztrc.New(p.a, cat)
				bctx, btr := col.NewTrace(p.b, cat)
				if had {
					if actx != p.a {
						rt.Fatalf("eztrc.New with an existing trace returned a new context")
					}
					nevents++
					continue
				}
				if atr.Category() != cat {
					rt.Fatalf("eztrc.New(%q) has category %q", cat, atr.Category())
				}
				pairs = append(pairs, pair{atr, btr})
				nodes = append(nodes, &node{a: actx, b: bctx})
			case 2:
				if p.depth > 3 {
					continue
				}
				c := genFmt(true).Draw(rt, "prefix")
				k.notef("prefix %q %v", c.format, c.args)
				a, _ := eztrc.Prefix(p.a, c.format, c.args...)
				b, _ := trc.Prefix(p.b, c.format, c.args...)
				nodes = append(nodes, &node{a: a, b: b, depth: p.depth + 1})
			case 3:
				if p.depth > 3 {
					continue
				}
				name := genText().Draw(rt, "region")
				k.notef("region %q", name)
				a, _, af := eztrc.Region(p.a, name)
				b, _, bf := trc.Region(p.b, name)
				nodes = append(nodes, &node{a: a, b: b, depth: p.depth + 1, finish: []func(){af, bf}})
			case 4:
				for _, f := range p.finish {
					f()
				}
				p.finish = nil
			case 5:
				at, aok := eztrc.MaybeGet(p.a)
				bt, bok := trc.MaybeGet(p.b)
				if aok != bok || (at == nil) != (bt == nil) {
					rt.Fatalf("MaybeGet: eztrc %v, trc %v", aok, bok)
				}
				if ag, bg := eztrc.Get(p.a), trc.Get(p.b); ag.Category() != bg.Category() || (aok && ag != at) {
					rt.Fatalf("Get: eztrc has category %q, trc %q", ag.Category(), bg.Category())
				}
			case 6:
				if rapid.IntRange(0, 3).Draw(rt, "finish") == 0 {
					eztrc.Get(p.a).Finish()
					trc.Get(p.b).Finish()
				}
			default:
				c := genCall().Draw(rt, "call")
				if rapid.IntRange(0, 2).Draw(rt, "cell?") == 0 {
					c.format, c.args = "cell %v", []any{cell}
				}
				k.notef("%s", c)
				nevents++
				switch c.method() {
				case "Tracef":
					eztrc.Tracef(p.a, c.format, c.args...)
				case "LazyTracef":
					eztrc.LazyTracef(p.a, c.format, c.args...)
				case "Errorf":
					eztrc.Errorf(p.a, c.format, c.args...)
				case "LazyErrorf":
					eztrc.LazyErrorf(p.a, c.format, c.args...)
				}
				c.apply(trc.Get(p.b))
			}
		}
		k.interesting(nevents >= 3 && len(pairs) > 0)
		if res, err := eztrc.Collector().Search(bg, &trc.SearchRequest{Limit: 1}); err != nil || res.TotalCount != before.TotalCount+len(pairs) {
			rt.Fatalf("%d new traces, but eztrc.Collector went from %d to %d (%v)", len(pairs), before.TotalCount, res.TotalCount, err)
		}
		for _, p := range pairs {
			var want []wantEvent
			strip := func(s string) string { // durations of regions
				if i := strings.LastIndex(s, " ["); i >= 0 && strings.Contains(s, "← ") && strings.HasSuffix(s, "]") {
					return s[:i]
				}
				return s
			}
			for _, ev := range p.b.Events() {
				want = append(want, wantEvent{strip(ev.What), ev.IsError})
			}
			have := copyEvents(p.a.Events())
			for i := range have {
				have[i].What = strip(have[i].What)
				if len(have[i].Stack) == 0 || strings.Contains(have[i].Stack[0].Function, "eztrc") {
					rt.Fatalf("event %d (%q) has stack %v", i, have[i].What, have[i].Stack)
				}
			}
			if err := eventsMatch(have, want); err != nil {
				rt.Fatalf("eztrc and trc: %v", err)
			}
			if p.a.Errored() != p.b.Errored() || p.a.Finished() != p.b.Finished() {
				rt.Fatalf("eztrc and trc: errored %v %v, finished %v %v", p.a.Errored(), p.b.Errored(), p.a.Finished(), p.b.Finished())
			}
			res, err := eztrc.Collector().Search(bg, &trc.SearchRequest{Filter: trc.Filter{IDs: []string{p.a.ID()}}})
			if err != nil || len(res.Traces) != 1 {
				rt.Fatalf("trace isn't in eztrc.Collector (%v)", err)
			}
			rec := httptest.NewRecorder()
			eztrc.Handler().ServeHTTP(rec, newRequest(bg, "GET", "/", url.Values{"id": {p.a.ID()}}.Encode(), nil, nil))
			var data trcweb.SearchData
			if err := json.Unmarshal(rec.Body.Bytes(), &data); err != nil || len(data.Response.Traces) != 1 {
				rt.Fatalf("trace isn't visible via eztrc.Handler (%v)", err)
			}
			if err := eventsEqual(data.Response.Traces[0].TraceEvents, p.a.Events()); err != nil {
				rt.Fatalf("trace in eztrc.Handler: %v", err)
			}
		}
	})

	check(t, "middleware", "generated requests to a handler with eztrc.Middleware, and with the middleware of trcweb and a collector: responses and events are the same, and the trace is in eztrc.Collector with the given category; non-trivial: always", 100, func(rt *rapid.T, k *kase) {
		ops := genRespOps(rt, false)
		for i := range ops {
			if ops[i].kind == "panic" {
				ops[i].kind = "trace"
			}
		}
		cat := genName().Draw(rt, "cat")
		path := rapid.SampledFrom([]string{"/", "/a", "/x y"}).Draw(rt, "path")
		k.notef("%q %q %+v", cat, path, ops)
		k.interesting(true)
		col := trc.NewCollector(trc.CollectorConfig{Source: "default"})
		run := func(mw func(http.Handler) http.Handler) (*httptest.ResponseRecorder, trc.Trace) {
			var tr trc.Trace
			rec := &flushRecorder{ResponseRecorder: httptest.NewRecorder()}
			mw(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				tr = eztrc.Get(r.Context())
				runRespOps(ops, w, r)
			})).ServeHTTP(rec, newRequest(bg, "GET", path, "", map[string]string{"User-Agent": "ua"}, nil))
			return rec.ResponseRecorder, tr
		}
		categorize := func(r *http.Request) string { return cat }
		arec, a := run(eztrc.Middleware(categorize))
		brec, b := run(trcweb.Middleware(col.NewTrace, categorize))
		if arec.Code != brec.Code || arec.Body.String() != brec.Body.String() {
			rt.Fatalf("responses differ")
		}
		aevs, bevs := a.Events(), b.Events()
		if len(aevs) != len(bevs) {
			rt.Fatalf("%d events vs. %d", len(aevs), len(bevs))
		}
		for i := range aevs {
			aw, bw := aevs[i].What, bevs[i].What
			if i == len(aevs)-1 {
				aw, bw = aw[:strings.LastIndex(aw, ",")], bw[:strings.LastIndex(bw, ",")]
			}
			if aw != bw {
				rt.Fatalf("event %d: %q vs. %q", i, aw, bw)
			}
		}
		if !a.Finished() || a.Category() != cat {
			rt.Fatalf("finished %v, category %q", a.Finished(), a.Category())
		}
		res, err := eztrc.Collector().Search(bg, &trc.SearchRequest{Filter: trc.Filter{IDs: []string{a.ID()}}})
		if err != nil || len(res.Traces) != 1 || res.Traces[0].TraceCategory != cat {
			rt.Fatalf("trace isn't in eztrc.Collector (%v)", err)
		}
	})
}

// ---- C28 ------------------------------------------------------------------

// wireTrace has the documented JSON format of a static trace.
type wireTrace struct {
	Source   string        `json:"source"`
	ID       string        `json:"id"`
	Category string        `json:"category"`
	Started  time.Time     `json:"started"`
	Duration time.Duration `json:"duration"`
	DurStr   string        `json:"duration_str"`
	DurSec   float64       `json:"duration_sec"`
	Finished bool          `json:"finished"`
	Errored  bool          `json:"errored"`
	Events   []struct {
		When    time.Time `json:"when"`
		What    string    `json:"what"`
		IsError bool      `json:"is_error"`
		Stack   []struct {
			Function string `json:"function"`
			FileLine string `json:"fileline"`
		} `json:"stack"`
	} `json:"events"`
}

func (w *wireTrace) static() *trc.StaticTrace {
	st := &trc.StaticTrace{TraceSource: w.Source, TraceID: w.ID, TraceCategory: w.Category, TraceStarted: w.Started, TraceDuration: w.Duration, TraceDurationStr: w.DurStr, TraceDurationSec: w.DurSec, TraceFinished: w.Finished, TraceErrored: w.Errored}
	for _, ev := range w.Events {
		e := trc.Event{When: ev.When, What: ev.What, IsError: ev.IsError}
		for _, fr := range ev.Stack {
			e.Stack = append(e.Stack, trc.Frame{Function: fr.Function, FileLine: fr.FileLine})
		}
		st.TraceEvents = append(st.TraceEvents, e)
	}
	return st
}

func TestC28(t *testing.T) {
	check(t, "json", "search and stream traces of generated traces (all implementations), and generated static traces with times in other zones, are encoded as JSON and decoded, repeatedly, alone and in a search response; the result is the same; non-trivial: there are events", 2000, func(rt *rapid.T, k *kase) {
		var st *trc.StaticTrace
		kind := rapid.IntRange(0, 3).Draw(rt, "kind")
		switch kind {
		case 0, 1:
			st = genStatic().Draw(rt, "trace")
			if zone := rapid.IntRange(-14*3600, 14*3600).Draw(rt, "zone"); kind == 1 {
				loc := time.FixedZone("zone", zone/60*60)
				st.TraceStarted = st.TraceStarted.In(loc)
				for i := range st.TraceEvents {
					st.TraceEvents[i].When = st.TraceEvents[i].When.In(loc)
				}
			}
			if rapid.Bool().Draw(rt, "derived") {
				if rapid.Bool().Draw(rt, "stream") {
					st = trc.NewStreamTrace(st)
				} else {
					st = trc.NewSearchTrace(st)
				}
			}
		default:
			m := makeTrace(rapid.SampledFrom(makerKinds).Draw(rt, "maker"), genName().Draw(rt, "src"), genName().Draw(rt, "cat"))
			defer m.cancel()
			for i, n := 0, rapid.IntRange(0, 4).Draw(rt, "n"); i < n; i++ {
				genCall().Draw(rt, "call").apply(m.tr)
			}
			if rapid.Bool().Draw(rt, "finish") {
				m.tr.Finish()
			}
			if kind == 2 {
				st = trc.NewSearchTrace(m.tr)
			} else {
				st = trc.NewStreamTrace(m.tr)
			}
		}
		k.notef("%d %q %q %q fin=%v err=%v %d events", kind, st.TraceID, st.TraceSource, st.TraceCategory, st.TraceFinished, st.TraceErrored, len(st.TraceEvents))
		k.interesting(len(st.TraceEvents) > 0)
		want := copyStatic(st)
		cur := st
		for i := 0; i < 2; i++ {
			buf, err := json.Marshal(cur)
			if err != nil {
				rt.Fatalf("marshal: %v", err)
			}
			cur = &trc.StaticTrace{}
			if err := json.Unmarshal(buf, cur); err != nil {
				rt.Fatalf("unmarshal: %v", err)
			}
			// Other programs rely on the names of the fields.
			var wire wireTrace
			if err := json.Unmarshal(buf, &wire); err != nil {
				rt.Fatalf("unmarshal: %v (%s)", err, clip(string(buf)))
			}
			if err := staticEqual(wire.static(), want); err != nil {
				rt.Fatalf("by JSON field names: %v (%s)", err, clip(string(buf)))
			}
			if err := staticEqual(cur, want); err != nil {
				rt.Fatalf("after JSON: %v (%s)", err, clip(string(buf)))
			}
		}
		if err := staticEqual(st, want); err != nil {
			rt.Fatalf("modified by JSON: %v", err)
		}
		buf, err := json.Marshal(&trc.SearchResponse{Traces: []*trc.StaticTrace{st, st}})
		if err != nil {
			rt.Fatalf("marshal: %v", err)
		}
		var res trc.SearchResponse
		if err := json.Unmarshal(buf, &res); err != nil || len(res.Traces) != 2 {
			rt.Fatalf("unmarshal: %v, %d traces", err, len(res.Traces))
		}
		if err := staticEqual(res.Traces[1], want); err != nil {
			rt.Fatalf("after JSON: %v", err)
		}
	})

	check(t, "immutable", "event methods and Finish, in any order, directly and via prefixes, on generated static traces, have no effect on them, and accessors return its fields; non-trivial: at least one call", 1500, func(rt *rapid.T, k *kase) {
		st := genStatic().Draw(rt, "trace")
		before := copyStatic(st)
		k.notef("%q fin=%v err=%v %d events", st.TraceID, st.TraceFinished, st.TraceErrored, len(st.TraceEvents))
		ctx, tr := trc.Put(bg, trc.Trace(st))
		handles := []trc.Trace{tr}
		if rapid.Bool().Draw(rt, "prefix") {
			_, h := trc.Prefix(ctx, "pfx")
			handles = append(handles, h)
		}
		for i, n := 0, rapid.IntRange(0, 5).Draw(rt, "n"); i < n; i++ {
			h := rapid.SampledFrom(handles).Draw(rt, "handle")
			if rapid.IntRange(0, 3).Draw(rt, "finish") == 0 {
				h.Finish()
			} else {
				genCall().Draw(rt, "call").apply(h)
			}
			k.interesting(true)
		}
		if err := staticEqual(st, before); err != nil {
			rt.Fatalf("modified: %v", err)
		}
		s := snap(st)
		if err := s.equal(snapshot{before.TraceID, before.TraceSource, before.TraceCategory, before.TraceStarted, before.TraceDuration, before.TraceFinished, before.TraceErrored, before.TraceEvents}); err != nil {
			rt.Fatalf("accessors: %v", err)
		}
	})

	check(t, "trim", "TrimStacks with any depth, once or repeatedly, on generated static traces and on search traces of core traces; stacks are compared with a model, and the source trace, and other static traces of it, aren't modified; non-trivial: a stack is cut", 1500, func(rt *rapid.T, k *kase) {
		var (
			source trc.Trace
			fixed  bool
		)
		if rapid.Bool().Draw(rt, "core") {
			m := makeTrace(rapid.SampledFrom(makerKinds).Draw(rt, "maker"), "src", "cat")
			defer m.cancel()
			for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "n"); i < n; i++ {
				genCall().Draw(rt, "call").apply(m.tr)
			}
			m.tr.Finish()
			source = m.tr
		} else {
			source, fixed = genStatic().Draw(rt, "trace"), true
		}
		original := modelStatic(source, 0)
		st, other := trc.NewSearchTrace(source), trc.NewSearchTrace(source)
		want := copyStatic(st)
		for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "times"); i < n; i++ {
			depth := rapid.SampledFrom([]int{0, 0, -1, -5, 1, 2, 3, 4, 100}).Draw(rt, "depth")
			k.notef("fixed=%v depth=%d", fixed, depth)
			got := st.TrimStacks(depth)
			for j, ev := range want.TraceEvents {
				switch {
				case depth < 0:
					k.interesting(len(ev.Stack) > 0)
					want.TraceEvents[j].Stack = nil
				case depth > 0 && len(ev.Stack) > depth:
					k.interesting(true)
					want.TraceEvents[j].Stack = ev.Stack[:depth]
				}
			}
			if err := staticEqual(got, want); err != nil {
				rt.Fatalf("depth %d: %v", depth, err)
			}
			st = got
		}
		if err := staticEqual(modelStatic(source, 0), original); err != nil {
			rt.Fatalf("source trace is modified: %v", err)
		}
		if err := eventsEqual(other.TraceEvents, original.TraceEvents); err != nil {
			rt.Fatalf("other static trace is modified: %v", err)
		}
	})
}

var discardLogger = log.New(io.Discard, "", 0)

// Connections aren't reused: requests that fail on a reused one may be retried.
var noRedirects = &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
