package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"html/template"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"golang.org/x/net/html"
	"pgregory.net/rapid"
)

// ---- URL parameters -------------------------------------------------------

type param struct{ key, val string }

func (p param) encode(t *rapid.T) string {
	switch rapid.IntRange(0, 3).Draw(t, "enc") {
	case 0: // everything
		var sb strings.Builder
		for _, b := range []byte(p.val) {
			fmt.Fprintf(&sb, "%%%02X", b)
		}
		return p.key + "=" + sb.String()
	case 1: // spaces
		return p.key + "=" + strings.ReplaceAll(url.QueryEscape(p.val), "+", "%20")
	}
	if p.val == "" && rapid.Bool().Draw(t, "bare") {
		return p.key
	}
	return p.key + "=" + url.QueryEscape(p.val)
}

var intStrings = []string{"0", "1", "2", "10", "25", "249", "250", "251", "1000", "2501", "100000", "-1", "-0", "+7", "007", "", "x", "1.5", " 3", "0x10", "99999999999999999999", "1e3"}

var durationStrings = []string{"0", "0s", "1ns", "1ms", "1.5s", "100us", "2h45m", "-1s", "", "x", "1", "5 s", "1000000h", ".5s", "99999999999h"}

// genParams produces URL parameters, and the request they describe.
func genParams(t *rapid.T, p filterPools, stream bool) ([]param, *trc.SearchRequest) {
	var ps []param
	req := &trc.SearchRequest{}
	f := &req.Filter
	on := func(name string, oneIn int) bool { return rapid.IntRange(0, oneIn-1).Draw(t, name) == oneIn-1 }
	if on("source?", 4) {
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "nsources"); i < n; i++ {
			f.Sources = append(f.Sources, pick(t, p.sources, "source"))
			ps = append(ps, param{"source", f.Sources[i]})
		}
	}
	if on("id?", 4) {
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "nids"); i < n; i++ {
			f.IDs = append(f.IDs, pick(t, p.ids, "id"))
			ps = append(ps, param{"id", f.IDs[i]})
		}
	}
	if on("category?", 3) {
		f.Category = pick(t, p.cats, "category")
		ps = append(ps, param{"category", f.Category})
	}
	flag := func(name string, b *bool) {
		if on(name+"?", 5) {
			*b = true
			ps = append(ps, param{name, rapid.SampledFrom([]string{"", "true", "1", "yes"}).Draw(t, name)})
		}
	}
	flag("active", &f.IsActive)
	flag("finished", &f.IsFinished)
	flag("success", &f.IsSuccess)
	flag("errored", &f.IsErrored)
	if on("min?", 3) {
		s := rapid.SampledFrom(durationStrings).Draw(t, "min")
		if d, err := time.ParseDuration(s); err == nil {
			f.MinDuration = &d
		}
		ps = append(ps, param{"min", s})
	}
	if on("q?", 2) {
		f.Query = rapid.OneOf(rapid.SampledFrom(validQueries), rapid.Map(genText(), quoteMeta), rapid.SampledFrom(invalidQueries)).Draw(t, "q")
		ps = append(ps, param{"q", f.Query})
	}
	if !stream {
		req.Limit = 10
		if on("n?", 2) {
			s := rapid.SampledFrom(intStrings).Draw(t, "n")
			if sometimes(t, "any n") {
				s = fmt.Sprint(rapid.Int().Draw(t, "n"))
			}
			if n, err := strconv.Atoi(s); err == nil {
				req.Limit = min(max(n, 1), 250)
			}
			ps = append(ps, param{"n", s})
		}
		if on("stack?", 3) {
			s := rapid.SampledFrom(intStrings).Draw(t, "stack")
			if n, err := strconv.Atoi(s); err == nil {
				req.StackDepth = n
			}
			ps = append(ps, param{"stack", s})
		}
		if on("b?", 3) {
			for i, n := 0, rapid.IntRange(1, 6).Draw(t, "nb"); i < n; i++ {
				s := rapid.SampledFrom(durationStrings).Draw(t, "b")
				if d, err := time.ParseDuration(s); err == nil {
					req.Bucketing = append(req.Bucketing, d)
				}
				ps = append(ps, param{"b", s})
			}
		}
	}
	return ps, req
}

// encodeParams encodes parameters, in an order that keeps that of the same key.
func encodeParams(t *rapid.T, ps []param) string {
	perm := rapid.Permutation(seq(len(ps))).Draw(t, "order")
	byKey := map[string][]int{}
	for i, p := range ps {
		byKey[p.key] = append(byKey[p.key], i)
	}
	var out []string
	for _, i := range perm {
		key := ps[i].key
		next := byKey[key][0]
		byKey[key] = byKey[key][1:]
		out = append(out, ps[next].encode(t))
	}
	return strings.Join(out, "&")
}

func newRequest(ctx context.Context, method, path, rawquery string, header map[string]string, body io.Reader) *http.Request {
	if body == nil {
		body = http.NoBody
	}
	r := (&http.Request{
		Method: method, URL: &url.URL{Path: path, RawQuery: rawquery}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: io.NopCloser(body), Host: "example.com", RemoteAddr: "192.0.2.1:1234", RequestURI: "/",
	}).WithContext(ctx)
	for k, v := range header {
		r.Header.Set(k, v)
	}
	return r
}

// streamRecorder is a response writer that cancels a context when an event
// stream has begun.
type streamRecorder struct {
	mtx    sync.Mutex
	rec    *httptest.ResponseRecorder
	cancel func()
	until  string
}

func (sr *streamRecorder) Header() http.Header { return sr.rec.Header() }
func (sr *streamRecorder) WriteHeader(code int) {
	sr.mtx.Lock()
	defer sr.mtx.Unlock()
	sr.rec.WriteHeader(code)
}
func (sr *streamRecorder) Write(p []byte) (int, error) {
	sr.mtx.Lock()
	defer sr.mtx.Unlock()
	n, err := sr.rec.Write(p)
	if strings.Contains(sr.rec.Body.String(), sr.until) {
		sr.cancel()
	}
	return n, err
}
func (sr *streamRecorder) Flush() {}

// ---- C15 ------------------------------------------------------------------

type acceptPart struct {
	text, kind string
}

var acceptParts = []acceptPart{
	{"text/html", "html"}, {" text/html;q=0.9", "html"}, {"TEXT/HTML", "html"}, {"text/html; charset=utf-8", "html"},
	{"application/json", "json"}, {"application/json;q=0.1", "json"},
	{"*/*", ""}, {"text/*", ""}, {"text/plain", ""}, {"", ""}, {"garbage", ""}, {"/;;", ""}, {"\"", ""}, {"application/xhtml+xml", ""}, {"text/htmlx", ""}, {"xtext/html", ""},
}

var jsonTypes = []string{"application/json", "application/json; charset=utf-8", "application/json;charset=utf-8", "application/json; charset=UTF-8", "application/json;"}

func TestC15(t *testing.T) {
	const maxBody = 1 << 20
	requests := func(rt *rapid.T, k *kase) {
		cats := []string{"a", "b", "<x>", ""}
		w := genWorld(rt, worldConfig{source: "src", minN: 0, maxN: 5, cats: cats, maxEvents: 2})
		server := &trcweb.TraceServer{Collector: w.col}
		if rapid.Bool().Draw(rt, "constructor") {
			server = trcweb.NewTraceServer(w.col)
		}
		failure := ""
		many := 0
		outcome := rapid.IntRange(0, 7).Draw(rt, "outcome")
		if sometimes(rt, "many categories") {
			outcome = -1
		}
		switch outcome {
		case -1: // as it may come from another implementation
			many = rapid.SampledFrom([]int{50, 99, 100, 101, 150, 300}).Draw(rt, "categories")
			server.Searcher = stubSearcher(func(_ context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
				res := &trc.SearchResponse{TotalCount: many, Stats: trc.NewSearchStats(req.Bucketing)}
				for i := 0; i < many; i++ {
					res.Stats.Observe(&trc.StaticTrace{TraceID: fmt.Sprint(i), TraceCategory: fmt.Sprintf("c%d", i), TraceStarted: baseTime, TraceFinished: true})
				}
				return res, nil
			})
		case 0, 1:
			failure = "it failed " + genText().Draw(rt, "failure")
			server.Searcher = stubSearcher(func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) {
				return nil, errors.New(failure)
			})
		case 2:
			server.Searcher = stubSearcher(func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) {
				return &trc.SearchResponse{}, nil // minimal, but not a failure
			})
		case 3:
			failure = "nested failure"
			server.Searcher = trc.MultiSearcher{w.col, stubSearcher(func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) {
				return nil, errors.New(failure)
			})}
		case 4:
			server.Searcher = trc.MultiSearcher{}
		}

		// The request.
		method := rapid.SampledFrom([]string{"GET", "GET", "GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "WEIRD"}).Draw(rt, "method")
		path := rapid.SampledFrom([]string{"/", "", "/traces", "/../..", "/a b", "/日本", "*", "//", "/%00"}).Draw(rt, "path")
		ps, req := genParams(rt, w.pools, false)
		asksJSON := rapid.IntRange(0, 4).Draw(rt, "json") == 0
		if asksJSON {
			ps = append(ps, param{"json", ""})
		}
		rawquery := encodeParams(rt, ps)
		if rapid.IntRange(0, 3).Draw(rt, "junk?") == 0 {
			rawquery += "&" + rapid.SampledFrom([]string{"%zz=1", "a;b", "=", "&&", "%", "json2", "foo=bar&foo=baz", "Q=(", "=json"}).Draw(rt, "junk")
		}
		header := map[string]string{}
		var kinds = map[string]bool{}
		if parts := rapid.SliceOfN(rapid.SampledFrom(acceptParts), 0, 4).Draw(rt, "accept"); len(parts) > 0 {
			var texts []string
			for _, p := range parts {
				texts = append(texts, p.text)
				kinds[p.kind] = true
			}
			header["Accept"] = strings.Join(texts, ",")
		}
		wantCode := 200
		var body io.Reader
		bodyDesc := "none"
		isJSON := rapid.IntRange(0, 2).Draw(rt, "body?") == 0
		if isJSON {
			header["Content-Type"] = rapid.SampledFrom(jsonTypes).Draw(rt, "ct")
			req = genRequest(w.pools, true).Draw(rt, "req")
			buf, err := json.Marshal(req)
			must(err)
			switch rapid.IntRange(0, 7).Draw(rt, "kind") {
			case 0:
				n := rapid.IntRange(0, len(buf)-1).Draw(rt, "truncate")
				buf, wantCode, bodyDesc = buf[:n], 400, fmt.Sprintf("truncated %d", n)
			case 1:
				bodyDesc = rapid.SampledFrom([]string{"", "x", "{", `"`, `{"limit":"x"}`, `{"filter":[]}`, `[1]`, `"a"`, `{"bucketing":{}}`, `{"limit":1.5}`, "\x00", "\xff\xfe", `{"filter":{"min_duration":"1s"}}`, "1", "true"}).Draw(rt, "bad")
				buf, wantCode = []byte(bodyDesc), 400
			case 2, 3:
				size := rapid.SampledFrom([]int{maxBody - 1, maxBody, maxBody + 1, maxBody + 100, 2 * maxBody}).Draw(rt, "size")
				bodyDesc = fmt.Sprintf("size %d", size)
				// Filled up with a long category.
				req = &trc.SearchRequest{Filter: trc.Filter{Category: "x"}}
				buf, _ = json.Marshal(req)
				req.Filter.Category = strings.Repeat("x", size-len(buf)+1)
				buf, _ = json.Marshal(req)
				if len(buf) != size {
					panic(fmt.Sprintf("HARNESS-ERROR: body has size %d, want %d", len(buf), size))
				}
				if size > maxBody {
					wantCode = 400
				}
			default:
				bodyDesc = "valid"
			}
			body = bytes.NewReader(buf)
			k.label(wantCode == 400, "bad body")
		} else if rapid.IntRange(0, 3).Draw(rt, "otherbody") == 0 {
			header["Content-Type"] = rapid.SampledFrom([]string{"text/plain", "application/x-www-form-urlencoded", "", "json"}).Draw(rt, "ct")
			body = strings.NewReader("n=3&q=(")
		}
		k.notef("%s %q ?%s accept=%q ct=%q body=%s outcome=%d", method, path, rawquery, header["Accept"], header["Content-Type"], bodyDesc, outcome)
		k.label(failure != "", "search fails")
		k.interesting(rawquery != "" || wantCode != 200 || failure != "")

		rec := httptest.NewRecorder()
		finishes(rt, "request", func() {
			server.ServeHTTP(rec, newRequest(bg, method, path, rawquery, header, body))
		})
		if rec.Code != wantCode {
			rt.Fatalf("code %d, want %d: %s", rec.Code, wantCode, clip(rec.Body.String()))
		}
		if wantCode != 200 {
			return
		}
		norm, problems := modelNormalize(req)
		ct := rec.Header().Get("Content-Type")
		if kinds["html"] && !asksJSON {
			k.label(true, "HTML")
			if !strings.HasPrefix(ct, "text/html") {
				rt.Fatalf("content type %q, want HTML", ct)
			}
			doc, err := html.Parse(rec.Body)
			if err != nil {
				rt.Fatalf("parse HTML: %v", err)
			}
			if byID(doc, "traces") == nil || byID(doc, "debug-info") == nil {
				rt.Fatalf("HTML is incomplete")
			}
			probs := byID(doc, "topline-search-problems")
			if (problems > 0 || failure != "") != (probs != nil) && (many == 0 || problems > 0) { // many categories may be a problem
				rt.Fatalf("%d problems, failure %q, but HTML has problems: %v", problems, failure, probs != nil)
			}
			if failure != "" && !strings.Contains(textOf(probs), normText(failure)) {
				rt.Fatalf("failure %q isn't in the problems %q", failure, textOf(probs))
			}
			return
		}
		if !strings.HasPrefix(ct, "application/json") {
			rt.Fatalf("content type %q, want JSON", ct)
		}
		var data trcweb.SearchData
		if err := json.Unmarshal(rec.Body.Bytes(), &data); err != nil {
			rt.Fatalf("response isn't JSON: %v: %s", err, clip(rec.Body.String()))
		}
		if err := requestEqual(&data.Request, norm); err != nil {
			rt.Fatalf("request in response: %v", err)
		}
		all := strings.Join(data.Response.Problems, "\n")
		if failure != "" && !strings.Contains(all, failure) {
			rt.Fatalf("failure %q isn't in the problems %q", failure, all)
		}
		if failure != "" {
			problems++
		}
		if n := len(data.Response.Problems); n < problems || n > 0 && problems == 0 {
			rt.Fatalf("problems %q, want %d, failure %q", data.Response.Problems, problems, failure)
		}
		if outcome >= 5 || outcome == 3 {
			want := w.model.search(norm)
			if err := tracesEqual(data.Response.Traces, want.traces); err != nil {
				rt.Fatalf("traces: %v", err)
			}
			if data.Response.TotalCount != want.total || data.Response.MatchCount != want.match {
				rt.Fatalf("total %d match %d, want %d %d", data.Response.TotalCount, data.Response.MatchCount, want.total, want.match)
			}
		}
	}
	check(t, "requests", "generated requests (method, path, URL parameters valid and invalid, junk, Accept and Content-Type headers, valid, malformed, truncated and too large bodies) to servers whose search succeeds, fails, or partly fails; the status code, content type and content are compared with a reference model; non-trivial: there are parameters, or a failure", 400, requests)

	check(t, "streams", "generated stream requests (filters by URL and by JSON body, valid and invalid queries, all kinds of stats intervals and send buffers, other parameters); a stream begins, or the request is rejected with a 400, and it ends when the client goes away; non-trivial: there are parameters or a body", 150, func(rt *rapid.T, k *kase) {
		col := trc.NewCollector(trc.CollectorConfig{Source: "src"})
		server := &trcweb.TraceServer{Collector: col}
		ps, req := genParams(rt, filterPools{}, true)
		if rapid.Bool().Draw(rt, "stats?") {
			ps = append(ps, param{"stats", rapid.SampledFrom(append([]string{"0s", "-5s", "1ns"}, durationStrings...)).Draw(rt, "stats")})
		}
		wantBuf := 100
		if rapid.Bool().Draw(rt, "sendbuf?") {
			s := rapid.SampledFrom(append([]string{"99999", "100000", "100001", "5"}, intStrings...)).Draw(rt, "sendbuf")
			if n, err := strconv.Atoi(s); err == nil {
				wantBuf = min(max(n, 0), 100000)
			}
			ps = append(ps, param{"sendbuf", s})
		}
		header := map[string]string{"Accept": rapid.SampledFrom([]string{"text/event-stream", "text/event-stream;q=0.5, text/html", "application/json,text/event-stream", "*/*, TEXT/EVENT-STREAM"}).Draw(rt, "accept")}
		var body io.Reader
		if rapid.IntRange(0, 2).Draw(rt, "body?") == 0 {
			header["Content-Type"] = rapid.SampledFrom(jsonTypes).Draw(rt, "ct")
			req.Filter = genFilter(filterPools{}, true).Draw(rt, "filter")
			buf, err := json.Marshal(req.Filter)
			must(err)
			body = bytes.NewReader(buf)
		}
		rawquery := encodeParams(rt, ps)
		k.notef("?%s %s", rawquery, showFilter(req.Filter))
		k.interesting(rawquery != "" || body != nil)
		wantCode := 200
		if !validRegexp(req.Filter.Query) {
			wantCode = 400
		}
		k.label(wantCode == 400, "invalid query")
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		sr := &streamRecorder{rec: httptest.NewRecorder(), cancel: cancel, until: "event: init\ndata: "}
		finishes(rt, "stream request", func() {
			server.ServeHTTP(sr, newRequest(ctx, "GET", "/", rawquery, header, body))
		})
		if sr.rec.Code != wantCode {
			rt.Fatalf("code %d, want %d: %s", sr.rec.Code, wantCode, clip(sr.rec.Body.String()))
		}
		if wantCode != 200 {
			return
		}
		if ct := sr.rec.Header().Get("Content-Type"); !strings.HasPrefix(ct, "text/event-stream") {
			rt.Fatalf("content type %q", ct)
		}
		_, data, ok := strings.Cut(sr.rec.Body.String(), "event: init\ndata: ")
		data, _, _ = strings.Cut(data, "\n")
		var init struct {
			Filter  trc.Filter `json:"filter"`
			SendBuf int        `json:"sendbuf"`
		}
		if !ok || json.Unmarshal([]byte(data), &init) != nil {
			rt.Fatalf("no init event in %s", clip(sr.rec.Body.String()))
		}
		if err := filterEqual(init.Filter, req.Filter); err != nil {
			rt.Fatalf("filter of init event: %v", err)
		}
		if init.SendBuf != wantBuf {
			rt.Fatalf("send buffer %d, want %d", init.SendBuf, wantBuf)
		}
	})

	check(t, "directory", "pages are requested while the working directory of the process has unrelated files and directories with generated names; non-trivial: at least one entry", 20, func(rt *rapid.T, k *kase) {
		dir, cleanup := tempDir("verif-cwd-")
		defer cleanup()
		names := rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"root", "index.html", "trc", "assets", "template", "summary", "page", "*", "{{", "a.html", "traces", "css", "html", "embed.go", "FS"}), 0, 6, rapid.ID[string]).Draw(rt, "names")
		for _, name := range names {
			if rapid.Bool().Draw(rt, "dir") {
				must(os.Mkdir(filepath.Join(dir, name), 0o755))
			} else {
				must(os.WriteFile(filepath.Join(dir, name), []byte(rapid.SampledFrom([]string{"", "hello", "{{ .Bad", "{{ template \"x\" }}"}).Draw(rt, "content")), 0o644))
			}
		}
		k.notef("%q", names)
		k.interesting(len(names) > 0)
		old, err := os.Getwd()
		must(err)
		must(os.Chdir(dir))
		defer func() { must(os.Chdir(old)) }()
		rec := httptest.NewRecorder()
		trcweb.NewTraceServer(trc.NewDefaultCollector()).ServeHTTP(rec, newRequest(bg, "GET", "/", "", map[string]string{"Accept": "text/html"}, nil))
		if rec.Code != 200 {
			rt.Fatalf("code %d with directory entries %q: %s", rec.Code, names, clip(rec.Body.String()))
		}
		doc, err := html.Parse(rec.Body)
		if err != nil || byID(doc, "traces") == nil || byID(doc, "summary") == nil {
			rt.Fatalf("HTML is incomplete with directory entries %q", names)
		}
	})

	check(t, "concurrent", "several requests of all kinds at once to a server made as a struct literal, while traces are being made; all of them get a complete response; non-trivial: at least 3 requests", 12, func(rt *rapid.T, k *kase) {
		col := trc.NewDefaultCollector()
		server := &trcweb.TraceServer{Collector: col}
		n := rapid.IntRange(1, 8).Draw(rt, "n")
		kinds := make([]int, n)
		for i := range kinds {
			kinds[i] = rapid.IntRange(0, 3).Draw(rt, "kind")
		}
		k.notef("%v", kinds)
		k.interesting(n >= 3)
		stop, stopped := make(chan struct{}), make(chan struct{})
		go func() {
			defer close(stopped)
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				_, tr := col.NewTrace(bg, fmt.Sprint("cat", i%3))
				tr.LazyTracef("hello %d", i)
				if i%4 > 0 {
					tr.Finish()
				}
			}
		}()
		errs := make(chan error, n)
		finishes(rt, "concurrent requests", func() {
			var wg sync.WaitGroup
			for _, kind := range kinds {
				wg.Add(1)
				go func(kind int) {
					defer wg.Done()
					ctx, cancel := context.WithCancel(bg)
					defer cancel()
					header := map[string]string{"Accept": []string{"text/html", "application/json", "text/event-stream", ""}[kind]}
					sr := &streamRecorder{rec: httptest.NewRecorder(), cancel: func() {}, until: "event: init"}
					if kind == 2 {
						sr.cancel = cancel
					}
					server.ServeHTTP(sr, newRequest(ctx, "GET", "/", "n=3", header, nil))
					sr.mtx.Lock()
					defer sr.mtx.Unlock()
					body := sr.rec.Body.String()
					want := []string{"</html>", "total_count", "event: init", "total_count"}[kind]
					if sr.rec.Code != 200 || !strings.Contains(body, want) {
						errs <- fmt.Errorf("request kind %d: code %d: %s", kind, sr.rec.Code, clip(body))
					}
				}(kind)
			}
			wg.Wait()
		})
		close(stop)
		<-stopped
		select {
		case err := <-errs:
			rt.Fatalf("%v", err)
		default:
		}
	})
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + " ..."
	}
	return s
}

// ---- C16 ------------------------------------------------------------------

type captureStreamer struct {
	mtx     sync.Mutex
	filters []trc.Filter
	caps    []int
	got     chan struct{}
}

func (cs *captureStreamer) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error) {
	cs.mtx.Lock()
	cs.filters, cs.caps = append(cs.filters, f), append(cs.caps, cap(ch))
	cs.mtx.Unlock()
	select {
	case cs.got <- struct{}{}:
	default:
	}
	<-ctx.Done()
	return trc.StreamStats{}, ctx.Err()
}

func (cs *captureStreamer) StreamStats(context.Context, chan<- trc.Trace) (trc.StreamStats, error) {
	return trc.StreamStats{}, nil
}

func TestC16(t *testing.T) {
	check(t, "search-url", "generated URL parameters, incl. repeated, unparseable and extreme ones, in various orders and encodings; the request received by the server's searcher, and the one in the response, are compared with what the parameters describe; non-trivial: at least 2 parameters", 2000, func(rt *rapid.T, k *kase) {
		ps, req := genParams(rt, filterPools{}, false)
		rawquery := encodeParams(rt, ps)
		norm, problems := modelNormalize(req)
		k.notef("?%s", rawquery)
		k.interesting(len(ps) >= 2)
		k.label(problems > 0, "invalid query")
		var got []*trc.SearchRequest
		server := &trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Searcher: stubSearcher(func(ctx context.Context, r *trc.SearchRequest) (*trc.SearchResponse, error) {
			got = append(got, copyRequest(r))
			return &trc.SearchResponse{Stats: trc.NewSearchStats(r.Bucketing)}, nil
		})}
		rec := httptest.NewRecorder()
		server.ServeHTTP(rec, newRequest(bg, "GET", "/", rawquery, nil, nil))
		if rec.Code != 200 || len(got) != 1 {
			rt.Fatalf("code %d, %d searches", rec.Code, len(got))
		}
		if err := requestEqual(got[0], norm); err != nil {
			rt.Fatalf("?%s: %v", rawquery, err)
		}
		var data trcweb.SearchData
		if err := json.Unmarshal(rec.Body.Bytes(), &data); err != nil {
			rt.Fatalf("%v", err)
		}
		if err := requestEqual(&data.Request, norm); err != nil {
			rt.Fatalf("?%s: request in response: %v", rawquery, err)
		}
		if len(data.Response.Problems) != problems {
			rt.Fatalf("?%s: problems %q, want %d", rawquery, data.Response.Problems, problems)
		}
	})

	check(t, "search-client", "generated requests given to a search client; the request received by the remote searcher is the normalized form of the same request; non-trivial: the filter isn't empty", 1200, func(rt *rapid.T, k *kase) {
		req := genRequest(filterPools{}, true).Draw(rt, "req")
		norm, _ := modelNormalize(req)
		k.notef("%s", showRequest(req))
		k.interesting(showFilter(req.Filter) != showFilter(trc.Filter{}))
		var got []*trc.SearchRequest
		server := &trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Searcher: stubSearcher(func(ctx context.Context, r *trc.SearchRequest) (*trc.SearchResponse, error) {
			got = append(got, copyRequest(r))
			return &trc.SearchResponse{Stats: trc.NewSearchStats(r.Bucketing)}, nil
		})}
		original := copyRequest(req)
		if _, err := trcweb.NewSearchClient(directClient{server}, "http://x/y?n=3&category=zzz").Search(bg, req); err != nil {
			rt.Fatalf("%v", err)
		}
		if len(got) != 1 {
			rt.Fatalf("%d searches", len(got))
		}
		if err := requestEqual(got[0], norm); err != nil {
			rt.Fatalf("%s: %v", showRequest(original), err)
		}
	})

	check(t, "stream-url", "generated URL parameters for stream requests; the filter received by the server's streamer is what they describe; non-trivial: at least 2 parameters", 300, func(rt *rapid.T, k *kase) {
		ps, req := genParams(rt, filterPools{}, true)
		if !validRegexp(req.Filter.Query) {
			rt.SkipNow()
		}
		rawquery := encodeParams(rt, ps)
		k.notef("?%s", rawquery)
		k.interesting(len(ps) >= 2)
		cs := &captureStreamer{got: make(chan struct{}, 1)}
		server := &trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Streamer: cs}
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		sr := &streamRecorder{rec: httptest.NewRecorder(), cancel: func() { <-cs.got; cancel() }, until: "event: init\ndata: "}
		sr.cancel = sync.OnceFunc(sr.cancel)
		finishes(rt, "stream request", func() {
			server.ServeHTTP(sr, newRequest(ctx, "GET", "/", rawquery, map[string]string{"Accept": "text/event-stream"}, nil))
		})
		if len(cs.filters) != 1 {
			rt.Fatalf("%d streams", len(cs.filters))
		}
		if err := filterEqual(cs.filters[0], req.Filter); err != nil {
			rt.Fatalf("?%s: %v", rawquery, err)
		}
	})

	check(t, "stream-client", "generated filters given to a stream client, whose URI may have parameters of its own; the filter received by the server's streamer is the same; an invalid one is an error; non-trivial: the filter isn't empty", 80, func(rt *rapid.T, k *kase) {
		f := genFilter(filterPools{}, true).Draw(rt, "filter")
		buf := rapid.SampledFrom([]int{0, 1, 50, 100, 1000, 100000, 100001, -1}).Draw(rt, "buf")
		k.notef("%s buf=%d", showFilter(f), buf)
		k.interesting(showFilter(f) != showFilter(trc.Filter{}))
		cs := &captureStreamer{got: make(chan struct{}, 1)}
		srv, uri := uniqueServer(&trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Streamer: cs})
		defer closeServer(srv)
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		sc := trcweb.NewStreamClient(uri + rapid.SampledFrom([]string{"", "/", "/x?foo=bar"}).Draw(rt, "uri"))
		sc.SendBuffer = buf
		sc.RetryInterval = time.Second
		errc := make(chan error, 1)
		original := copyFilter(f)
		go func() { errc <- sc.Stream(ctx, f, make(chan trc.Trace, 10)) }()
		if !validRegexp(f.Query) {
			select {
			case err := <-errc:
				if err == nil {
					rt.Fatalf("no error with an invalid query")
				}
			case <-cs.got:
				rt.Fatalf("invalid filter %s was accepted", showFilter(original))
			case <-time.After(limited(waitLimit)):
				tookTooLong.Store(true)
				rt.Fatalf("stream with an invalid query didn't end")
			}
			return
		}
		select {
		case <-cs.got:
		case err := <-errc:
			rt.Fatalf("filter %s: %v", showFilter(original), err)
		case <-time.After(limited(waitLimit)):
			tookTooLong.Store(true)
			rt.Fatalf("stream didn't begin")
		}
		cancel()
		cs.mtx.Lock()
		defer cs.mtx.Unlock()
		if err := filterEqual(cs.filters[0], original); err != nil {
			rt.Fatalf("filter %s: %v", showFilter(original), err)
		}
		if want := min(max(buf, 0), 100000); want > 0 && cs.caps[0] != want {
			rt.Fatalf("send buffer %d, want %d", cs.caps[0], want)
		}
	})
}

// ---- C17 ------------------------------------------------------------------

func walk(n *html.Node, f func(*html.Node)) {
	if n == nil {
		return
	}
	f(n)
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		walk(c, f)
	}
}

func attr(n *html.Node, name string) string {
	for _, a := range n.Attr {
		if a.Key == name {
			return a.Val
		}
	}
	return ""
}

func hasAttr(n *html.Node, name string) bool {
	for _, a := range n.Attr {
		if a.Key == name {
			return true
		}
	}
	return false
}

func hasClass(n *html.Node, class string) bool {
	for _, c := range strings.Fields(attr(n, "class")) {
		if c == class {
			return true
		}
	}
	return false
}

// all returns the descendants with the tag (if not empty) and class (if not empty).
func all(n *html.Node, tag, class string) []*html.Node {
	var res []*html.Node
	walk(n, func(c *html.Node) {
		if c != n && c.Type == html.ElementNode && (tag == "" || c.Data == tag) && (class == "" || hasClass(c, class)) {
			res = append(res, c)
		}
	})
	return res
}

func byID(n *html.Node, id string) *html.Node {
	var res *html.Node
	walk(n, func(c *html.Node) {
		if res == nil && c.Type == html.ElementNode && attr(c, "id") == id {
			res = c
		}
	})
	return res
}

func textOf(n *html.Node) string {
	var sb strings.Builder
	walk(n, func(c *html.Node) {
		if c.Type == html.TextNode {
			sb.WriteString(c.Data)
		}
	})
	return sb.String()
}

// normText is what an HTML parser makes of text that was properly escaped.
func normText(s string) string {
	s = strings.ReplaceAll(s, "\x00", "\uFFFD")
	s = strings.ReplaceAll(s, "\r\n", "\n")
	return strings.ReplaceAll(s, "\r", "\n")
}

var nastyTexts = []string{
	"<script>alert(1)</script>", "</script><script>alert(1)</script>", "<!--", "-->", "<img src=x onerror=alert(1)>", `" onload="alert(1)`, `' onload='alert(1)`,
	"javascript:alert(1)", "</a></td></table>", "&lt;b&gt;", "&amp;", "&", "a,b;c", "&quot;", "</style><b>", "</textarea>", "`${alert(1)}`", "\\", "\\u003c", `\");alert(1)//`,
	"a&b=c", "?q=1#x", "+", "%41", "100%", "{{.}}", "x\ny", "\u2028", "日本", " lead", "trail ", "<wbr>", "a,<wbr>b", "]]>", "é", "\x00", "\r\n", ";,;", "'", "\"", "<", ">", "&#34;", "&;",
}

func genNasty() *rapid.Generator[string] {
	return rapid.OneOf(rapid.SampledFrom(nastyTexts), rapid.SampledFrom(nastyTexts), genText(), rapid.Custom(func(t *rapid.T) string {
		return rapid.SampledFrom(nastyTexts).Draw(t, "x") + rapid.SampledFrom(nastyTexts).Draw(t, "y")
	}))
}

// page is everything that determines the content of a page.
type page struct {
	req      *trc.SearchRequest
	traces   []*trc.StaticTrace
	others   []*trc.StaticTrace // only in stats
	sources  []string
	problems []string
	err      string
	total    int
	match    int
	took     time.Duration
	link     string // makes source links
}

// plainURL matches URLs that need no escaping.
var plainURL = regexp.MustCompile(`^[a-zA-Z0-9:/._-]*$`)

// sourceLinks are functions to make source links, by name.
var sourceLinks = map[string]trcweb.SourceLinkFunc{
	"":       func(string) template.URL { return "" },
	"vscode": trcweb.SourceLinkVSCode,
	"custom": func(s string) template.URL { return template.URL("https://example.com/src/" + s) },
	"some": func(s string) template.URL { // the others aren't linked
		if len(s)%2 == 0 {
			return ""
		}
		return template.URL("https://example.com/" + s)
	},
}

func (p *page) response(norm *trc.SearchRequest) *trc.SearchResponse {
	ss := trc.NewSearchStats(norm.Bucketing)
	for _, st := range append(append([]*trc.StaticTrace{}, p.traces...), p.others...) {
		ss.Observe(st)
	}
	return &trc.SearchResponse{Request: norm, Sources: p.sources, TotalCount: p.total, MatchCount: p.match, Traces: p.traces, Stats: ss, Problems: p.problems, Duration: p.took}
}

// render returns the parsed page.
func (p *page) render(rt *rapid.T) *html.Node {
	server := &trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Searcher: stubSearcher(func(ctx context.Context, r *trc.SearchRequest) (*trc.SearchResponse, error) {
		if p.err != "" {
			return nil, errors.New(p.err)
		}
		return p.response(r), nil
	})}
	trcweb.SetSourceLinkFunc(sourceLinks[p.link])
	defer trcweb.SetSourceLinkFunc(sourceLinks[""])
	buf, err := json.Marshal(p.req)
	must(err)
	rec := httptest.NewRecorder()
	server.ServeHTTP(rec, newRequest(bg, "GET", "/", "", map[string]string{"Accept": "text/html", "Content-Type": "application/json"}, bytes.NewReader(buf)))
	if rec.Code != 200 {
		rt.Fatalf("code %d: %s", rec.Code, clip(rec.Body.String()))
	}
	doc, err := html.Parse(rec.Body)
	if err != nil {
		rt.Fatalf("parse: %v", err)
	}
	return doc
}

// renamed returns the same page, with every text replaced by a harmless one. The
// mapping is one to one, and keeps empty text, and the order of texts.
func (p *page) renamed() (*page, map[string]string) {
	texts := map[string]bool{}
	p.substituted(func(s string) string { texts[s] = true; return s })
	m := map[string]string{"": ""}
	for i, s := range sortedKeys(texts) {
		if s != "" {
			m[s] = fmt.Sprintf("zz%05dzz", i)
		}
	}
	return p.substituted(func(s string) string { return m[s] }), m
}

func (p *page) substituted(sub func(string) string) *page {
	subs := func(ss []string) []string {
		var res []string
		for _, s := range ss {
			res = append(res, sub(s))
		}
		return res
	}
	subTraces := func(sts []*trc.StaticTrace) []*trc.StaticTrace {
		var res []*trc.StaticTrace
		for _, st := range sts {
			cp := copyStatic(st)
			cp.TraceID, cp.TraceSource, cp.TraceCategory = sub(st.TraceID), sub(st.TraceSource), sub(st.TraceCategory)
			for i := range cp.TraceEvents {
				cp.TraceEvents[i].What = sub(cp.TraceEvents[i].What)
				for j, fr := range cp.TraceEvents[i].Stack {
					cp.TraceEvents[i].Stack[j] = trc.Frame{Function: sub(fr.Function), FileLine: sub(fr.FileLine)}
				}
			}
			res = append(res, cp)
		}
		return res
	}
	q := &page{req: copyRequest(p.req), total: p.total, match: p.match, took: p.took, link: p.link}
	q.req.Filter.Query = sub(p.req.Filter.Query)
	q.req.Filter.Category = sub(p.req.Filter.Category)
	q.req.Filter.Sources = subs(p.req.Filter.Sources)
	q.req.Filter.IDs = subs(p.req.Filter.IDs)
	q.traces, q.others = subTraces(p.traces), subTraces(p.others)
	q.sources = subs(p.sources)
	q.problems = subs(p.problems)
	q.err = sub(p.err)
	return q
}

type element struct {
	path    string // tag path, so that nesting matters
	attrs   string // names
	handler []string
	script  string
	style   string
}

var classHash = regexp.MustCompile(`[0-9a-f]{64}`)

// skeleton is the structure of a page, without anything that comes from texts.
func skeleton(doc *html.Node) []element {
	var res []element
	var rec func(n *html.Node, path string)
	rec = func(n *html.Node, path string) {
		switch n.Type {
		case html.ElementNode:
			if n.Data == "wbr" {
				return
			}
			path += "/" + n.Data
			e := element{path: path}
			var names []string
			for _, a := range n.Attr {
				names = append(names, a.Key)
				if strings.HasPrefix(a.Key, "on") {
					e.handler = append(e.handler, a.Key+"="+a.Val)
				}
				if a.Key == "style" {
					e.style = a.Val
				}
			}
			sort.Strings(names)
			e.attrs = strings.Join(names, ",")
			if n.Data == "script" {
				e.script = textOf(n)
			}
			if n.Data == "style" {
				e.style = classHash.ReplaceAllString(textOf(n), "HASH")
			}
			res = append(res, e)
		case html.CommentNode:
			res = append(res, element{path: path + "/<!--" + n.Data})
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			rec(c, path)
		}
	}
	rec(doc, "")
	return res
}

var harmless = regexp.MustCompile(`"zz[0-9]+zz"`)

// sameCode says if code differs from harmless code only in string literals, each
// of which is the one the harmless text stands for.
func sameCode(have, want string, m map[string]string) error {
	inverse := map[string]string{}
	for k, v := range m {
		inverse[v] = k
	}
	rest := have
	pos := 0
	for _, loc := range append(harmless.FindAllStringIndex(want, -1), []int{len(want), len(want)}) {
		static := want[pos:loc[0]]
		if !strings.HasPrefix(rest, static) {
			return fmt.Errorf("code %q differs from %q", clip(rest), clip(static))
		}
		rest = rest[len(static):]
		if loc[0] == loc[1] {
			break
		}
		pos = loc[1]
		// A string literal, which ends at the first unescaped quote.
		end := 1
		if len(rest) == 0 || rest[0] != '"' {
			return fmt.Errorf("code has %q instead of a string literal", clip(rest))
		}
		for end < len(rest) && rest[end] != '"' {
			if rest[end] == '\\' {
				end++
			}
			end++
		}
		if end >= len(rest) {
			return fmt.Errorf("unterminated string literal %q", clip(rest))
		}
		var s string
		literal := rest[:end+1]
		if err := json.Unmarshal([]byte(literal), &s); err != nil {
			return fmt.Errorf("string literal %s: %v", literal, err)
		}
		if strings.Contains(literal, "<") {
			return fmt.Errorf("string literal %s isn't safe in HTML", literal)
		}
		if orig := inverse[strings.Trim(want[loc[0]:loc[1]], `"`)]; s != orig {
			return fmt.Errorf("string literal %s is %q, want %q", literal, s, orig)
		}
		rest = rest[end+1:]
	}
	if rest != "" {
		return fmt.Errorf("code has extra %q", clip(rest))
	}
	return nil
}

func genPage(rt *rapid.T, k *kase) *page {
	texts := rapid.SliceOfNDistinct(genNasty(), 4, 10, rapid.ID[string]).Draw(rt, "texts")
	var usable []string
	for _, s := range texts {
		if s != "overall" {
			usable = append(usable, s)
		}
	}
	text := func(label string) string { return rapid.SampledFrom(usable).Draw(rt, label) }
	p := &page{req: &trc.SearchRequest{}}
	p.sources = rapid.SliceOfNDistinct(rapid.SampledFrom(usable), 0, 3, rapid.ID[string]).Draw(rt, "sources")
	recent, now := rapid.Bool().Draw(rt, "recent"), time.Now().UTC()
	nt, no := rapid.IntRange(0, 3).Draw(rt, "traces"), rapid.IntRange(0, 3).Draw(rt, "others")
	for i := 0; i < nt+no; i++ {
		st := genStatic().Draw(rt, "trace")
		st.TraceID, st.TraceSource, st.TraceCategory = text("id"), text("source"), text("category")
		shift := genDuration().Draw(rt, "shift") * time.Duration(rapid.IntRange(0, 23).Draw(rt, "times"))
		if recent {
			shift = now.Add(-time.Millisecond * time.Duration(rapid.IntRange(1, 200_000).Draw(rt, "age"))).Sub(st.TraceStarted)
		}
		st.TraceStarted = st.TraceStarted.Add(shift)
		for j := range st.TraceEvents {
			st.TraceEvents[j].When = st.TraceEvents[j].When.Add(shift)
		}
		sort.SliceStable(st.TraceEvents, func(i, j int) bool { return st.TraceEvents[i].When.Before(st.TraceEvents[j].When) })
		if rapid.Bool().Draw(rt, "simple id") {
			st.TraceID = fmt.Sprintf("ID%d", i)
		}
		if rapid.IntRange(0, 5).Draw(rt, "nosource") == 0 {
			st.TraceSource = ""
		}
		for j := range st.TraceEvents {
			st.TraceEvents[j].What = text("what")
			for l := range st.TraceEvents[j].Stack {
				if rapid.Bool().Draw(rt, "nasty frame") {
					st.TraceEvents[j].Stack[l] = trc.Frame{Function: text("function"), FileLine: text("fileline")}
				}
			}
		}
		if i < nt {
			p.traces = append(p.traces, st)
		} else {
			p.others = append(p.others, st)
		}
	}
	pools := filterPools{sources: append(p.sources, usable...), ids: usable, cats: usable}
	p.req.Filter = genFilter(pools, false).Draw(rt, "filter")
	if p.req.Filter.Query != "" && rapid.Bool().Draw(rt, "nasty query") {
		if q := text("query"); validRegexp(q) && q != "" {
			p.req.Filter.Query = q
		}
	}
	if p.req.Filter.Category == "overall" {
		p.req.Filter.Category = ""
	}
	p.req.Limit = rapid.SampledFrom([]int{10, 25, 100, 7, 250}).Draw(rt, "limit")
	if rapid.IntRange(0, 2).Draw(rt, "bucketing") == 0 {
		p.req.Bucketing = []time.Duration{0, time.Second, 90 * time.Second}
		if rapid.Bool().Draw(rt, "similar") { // to the default
			p.req.Bucketing = append([]time.Duration(nil), trc.DefaultBucketing...)
			p.req.Bucketing[rapid.IntRange(1, len(p.req.Bucketing)-1).Draw(rt, "index")]++
		}
	}
	if rapid.IntRange(0, 2).Draw(rt, "problem") == 0 {
		p.problems = append(p.problems, text("problem"))
	}
	if rapid.IntRange(0, 12).Draw(rt, "error") == 0 {
		p.err = "error " + text("error")
	}
	p.total = rapid.IntRange(0, 5000).Draw(rt, "total")
	p.match = rapid.IntRange(0, 5000).Draw(rt, "match")
	p.link = rapid.SampledFrom([]string{"", "vscode", "custom", "some"}).Draw(rt, "link")
	p.took = genDuration().Draw(rt, "took")
	k.notef("texts %q, %d traces, %s", usable, nt, showRequest(p.req))
	return p
}

func TestC17(t *testing.T) {
	check(t, "structure", "pages with generated traces, stats, requests, sources and problems, full of text that looks like HTML, JavaScript, CSS and URLs, are parsed by an HTML5 parser; their structure, scripts and event handlers are the same as of the page with harmless text, except for string literals that evaluate to the original text; non-trivial: at least one trace", 100, func(rt *rapid.T, k *kase) {
		p := genPage(rt, k)
		if p.link == "some" {
			p.link = "custom" // which doesn't depend on the text
		}
		k.interesting(len(p.traces) > 0 && p.err == "")
		q, m := p.renamed()
		// Empty what, ID etc. stay empty, so that the structure is the same.
		have, want := skeleton(p.render(rt)), skeleton(q.render(rt))
		for i := range have {
			if i >= len(want) {
				rt.Fatalf("page has extra element %s [%s]", have[i].path, have[i].attrs)
			}
			if have[i].path != want[i].path || have[i].attrs != want[i].attrs {
				rt.Fatalf("element %d is %s [%s], with harmless text it's %s [%s]", i, have[i].path, have[i].attrs, want[i].path, want[i].attrs)
			}
			if have[i].style != want[i].style {
				rt.Fatalf("element %d (%s): style %q, with harmless text %q", i, have[i].path, clip(have[i].style), clip(want[i].style))
			}
			if err := sameCode(have[i].script, want[i].script, m); err != nil {
				rt.Fatalf("element %d (%s): script: %v", i, have[i].path, err)
			}
			for j := range have[i].handler {
				if err := sameCode(have[i].handler[j], want[i].handler[j], m); err != nil {
					rt.Fatalf("element %d (%s): handler: %v", i, have[i].path, err)
				}
			}
		}
		if len(have) < len(want) {
			rt.Fatalf("page lacks element %s [%s]", want[len(have)].path, want[len(have)].attrs)
		}
	})

	check(t, "content", "as structure; traces, events, frames, counts, sources and problems on the page are compared with the response, and every link and the search form are followed and the resulting requests compared with what they're for; non-trivial: at least one trace with an event", 100, func(rt *rapid.T, k *kase) {
		p := genPage(rt, k)
		before := time.Now()
		doc := p.render(rt)
		after := time.Now()
		norm, _ := modelNormalize(p.req)
		if p.err != "" {
			probs := textOf(byID(doc, "topline-search-problems"))
			if !strings.Contains(probs, normText(p.err)) {
				rt.Fatalf("error %q isn't in the problems %q", p.err, probs)
			}
			return
		}
		res := p.response(norm)

		// Traces.
		container := byID(doc, "traces")
		divs := all(container, "div", "trace")
		if len(divs) != len(p.traces) {
			rt.Fatalf("page has %d traces, want %d", len(divs), len(p.traces))
		}
		nevents := 0
		for i, st := range p.traces {
			verifyTraceHTML(rt, divs[i], st, sourceLinks[p.link])
			nevents += len(st.TraceEvents)
		}
		k.interesting(nevents > 0)

		// Metadata.
		for id, want := range map[string]string{
			"topline-search-total":   fmt.Sprintf("total=%d", p.total),
			"topline-search-matched": fmt.Sprintf("matched=%d", p.match),
			"topline-search-shown":   fmt.Sprintf("shown=%d", len(p.traces)),
		} {
			if have := strings.TrimSpace(textOf(byID(doc, id))); have != want {
				rt.Fatalf("page says %q, want %q", have, want)
			}
		}
		for _, s := range p.problems {
			if have := textOf(byID(doc, "topline-search-problems")); !strings.Contains(have, normText(s)) {
				rt.Fatalf("problem %q isn't in %q", s, have)
			}
		}
		for _, s := range p.sources {
			if have := textOf(byID(doc, "topline-search-sources")); !strings.Contains(have, normText(s)) {
				rt.Fatalf("source %q isn't in %q", s, have)
			}
		}

		took, _ := strings.CutPrefix(strings.TrimSpace(textOf(byID(doc, "topline-search-took"))), "took=")
		if err := humanizedOK(took, p.took, p.took); err != nil {
			rt.Fatalf("took %s: page says %q: %v", p.took, took, err)
		}

		// Summary.
		base := &trc.SearchRequest{Limit: norm.Limit, Bucketing: norm.Bucketing, Filter: trc.Filter{Query: norm.Filter.Query, Sources: norm.Filter.Sources}}
		mod := func(cat string, f func(*trc.Filter)) *trc.SearchRequest {
			r := copyRequest(base)
			r.Filter.Category = cat
			if f != nil {
				f(&r.Filter)
			}
			return r
		}
		active := func(f *trc.Filter) { f.IsActive = true }
		errored := func(f *trc.Filter) { f.IsErrored = true }
		atleast := func(d time.Duration) func(*trc.Filter) { return func(f *trc.Filter) { f.MinDuration = &d } }
		summary := byID(doc, "summary")
		header := all(summary, "tr", "header")
		if len(header) != 1 {
			rt.Fatalf("summary has %d headers", len(header))
		}
		verifyLink(rt, all(header[0], "th", "active")[0], "Active", mod("", active))
		verifyLink(rt, all(header[0], "th", "errored")[0], "Error", mod("", errored))
		buckets := all(header[0], "th", "bucket")
		if len(buckets) != len(norm.Bucketing) {
			rt.Fatalf("summary has %d buckets, want %d", len(buckets), len(norm.Bucketing))
		}
		for i, b := range norm.Bucketing {
			verifyLink(rt, buckets[i], "≥"+b.String(), mod("", atleast(b)))
		}
		rows := all(summary, "tr", "category")
		cats := res.Stats.AllCategories()
		if len(rows) != len(cats) {
			rt.Fatalf("summary has %d rows, want %d", len(rows), len(cats))
		}
		for i, cs := range cats {
			cat := cs.Category
			if i == len(cats)-1 {
				cat = ""
			}
			row := rows[i]
			verifyLink(rt, all(row, "td", "category")[0], normText(cs.Category), mod(cat, nil))
			verifyLink(rt, all(row, "td", "active")[0], strconv.Itoa(cs.ActiveCount), mod(cat, active))
			verifyLink(rt, all(row, "td", "errored")[0], strconv.Itoa(cs.ErroredCount), mod(cat, errored))
			bs := all(row, "td", "bucket")
			if len(bs) != len(cs.BucketCounts) {
				rt.Fatalf("category %q has %d buckets, want %d", cs.Category, len(bs), len(cs.BucketCounts))
			}
			for j, b := range norm.Bucketing {
				verifyLink(rt, bs[j], strconv.Itoa(cs.BucketCounts[j]), mod(cat, atleast(b)))
			}
			if have := strings.TrimSpace(textOf(all(row, "td", "total")[0])); have != strconv.Itoa(cs.TotalCount()) {
				rt.Fatalf("category %q has total %q, want %d", cs.Category, have, cs.TotalCount())
			}
			verifyPercent(rt, all(row, "td", "active")[0], cs.ActiveCount, cs.TotalCount())
			verifyPercent(rt, all(row, "td", "errored")[0], cs.ErroredCount, cs.TotalCount())
			for j := range bs {
				verifyPercent(rt, bs[j], cs.BucketCounts[j], cs.TotalCount())
			}
			verifyAge(rt, all(row, "td", "oldest")[0], cs.Oldest, before, after)
			verifyAge(rt, all(row, "td", "newest")[0], cs.Newest, before, after)
			if i < len(cats)-1 { // the overall rate is the sum of all others
				rate := all(row, "td", "rate")[0]
				have, ok := strings.CutSuffix(strings.TrimSpace(textOf(rate)), "/s")
				if !ok {
					rt.Fatalf("category %q has rate %q", cs.Category, textOf(rate))
				}
				verifyRate(rt, have, cs.TotalCount(), cs.Oldest, before, after)
				title := strings.Fields(attr(rate, "title"))
				if len(title) != 4 {
					rt.Fatalf("category %q has rate title %q", cs.Category, title)
				}
				verifyRate(rt, title[0], cs.TotalCount(), cs.Oldest, before, after)
				verifyRate(rt, title[2], cs.EventCount, cs.Oldest, before, after)
			}
		}

		// The form.
		form := url.Values{}
		for _, in := range all(byID(doc, "search-form"), "input", "") {
			if name, val := attr(in, "name"), attr(in, "value"); name != "" && val != "" {
				form.Add(name, val)
			}
		}
		for _, sel := range all(byID(doc, "search-form"), "select", "") {
			for _, opt := range all(sel, "option", "") {
				if hasAttr(opt, "selected") {
					val := strings.TrimSpace(textOf(opt))
					if hasAttr(opt, "value") {
						val = attr(opt, "value")
					}
					if val != "" {
						form.Add(attr(sel, "name"), val)
					}
				}
			}
		}
		if len(p.sources) > 1 {
			var have, selected []string
			for _, opt := range all(byID(doc, "search-source"), "option", "") {
				if val := attr(opt, "value"); val != "" {
					have = append(have, val)
					if hasAttr(opt, "selected") {
						selected = append(selected, val)
					}
				}
			}
			var want, wantSelected []string
			for _, s := range p.sources {
				if s != "" {
					want = append(want, normText(s))
					if len(norm.Filter.Sources) > 0 && s == norm.Filter.Sources[0] {
						wantSelected = append(wantSelected, normText(s))
					}
				}
			}
			if fmt.Sprintf("%q", have) != fmt.Sprintf("%q", want) || fmt.Sprintf("%q", selected) != fmt.Sprintf("%q", wantSelected) {
				rt.Fatalf("search form: sources %q, selected %q, want %q, %q", have, selected, want, wantSelected)
			}
		}
		got := follow(rt, form.Encode())
		want := copyRequest(norm)
		got.Filter.Sources, got.Filter.IDs, got.Bucketing = nil, nil, nil
		want.Filter.Sources, want.Filter.IDs, want.Bucketing = nil, nil, nil
		if q := normText(want.Filter.Query); validRegexp(q) {
			want.Filter.Query = q
		}
		want.Filter.Category = normText(want.Filter.Category)
		if err := requestEqual(got, want); err != nil {
			rt.Fatalf("search form: %v", err)
		}
	})
}

// verifyPercent checks the title of a count, and the progress bar behind it.
func verifyPercent(rt *rapid.T, td *html.Node, n, total int) {
	rt.Helper()
	var want float64
	if total > 0 {
		want = 100 * float64(n) / float64(total)
	}
	var a, b int
	var pct float64
	if _, err := fmt.Sscanf(attr(td, "title"), "%d of %d, %f%%", &a, &b, &pct); err != nil || a != n || b != total || math.Abs(pct-want) > 1 {
		rt.Fatalf("%d of %d have title %q: %v", n, total, attr(td, "title"), err)
	}
	for _, bar := range all(td, "div", "progress-bar") {
		if _, err := fmt.Sscanf(attr(bar, "style"), "height:%f%%", &pct); err != nil || math.Abs(pct-want) > 1 {
			rt.Fatalf("%d of %d have style %q: %v", n, total, attr(bar, "style"), err)
		}
	}
}

func verifyAge(rt *rapid.T, td *html.Node, ts, before, after time.Time) {
	rt.Helper()
	have := strings.TrimSpace(textOf(td))
	if ts.IsZero() {
		if have != "n/a" {
			rt.Fatalf("no time has age %q", have)
		}
		return
	}
	if err := humanizedOK(have, before.Sub(ts), after.Sub(ts)); err != nil {
		rt.Fatalf("age of %s: %v", ts, err)
	}
}

// verifyRate checks an abbreviated number per second.
func verifyRate(rt *rapid.T, s string, n int, oldest, before, after time.Time) {
	rt.Helper()
	var lo, hi float64
	if n > 0 && !oldest.IsZero() {
		lo, hi = float64(n)/after.Sub(oldest).Seconds(), float64(n)/before.Sub(oldest).Seconds()
	}
	if s == "1M+" {
		if hi < 1_000_000 {
			rt.Fatalf("rate is %q, want %v..%v", s, lo, hi)
		}
		return
	}
	num, kilo := strings.CutSuffix(s, "K")
	have, err := strconv.ParseFloat(num, 64)
	if err != nil {
		rt.Fatalf("rate is %q: %v", s, err)
	}
	tolerance := 0.051
	if kilo {
		have, tolerance = have*1000, 51
	} else if hi >= 1 {
		tolerance = 0.51
	}
	if hi > 10_000 {
		tolerance = 510
	}
	if have < lo-tolerance || have > hi+tolerance {
		rt.Fatalf("rate is %q, want %v..%v", s, lo, hi)
	}
}

// follow returns the request which a server makes of URL parameters.
func follow(rt *rapid.T, rawquery string) *trc.SearchRequest {
	var got *trc.SearchRequest
	server := &trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Searcher: stubSearcher(func(ctx context.Context, r *trc.SearchRequest) (*trc.SearchResponse, error) {
		got = copyRequest(r)
		return &trc.SearchResponse{Stats: trc.NewSearchStats(r.Bucketing)}, nil
	})}
	rec := httptest.NewRecorder()
	server.ServeHTTP(rec, newRequest(bg, "GET", "/", rawquery, nil, nil))
	if got == nil {
		rt.Fatalf("?%s: code %d, no search", rawquery, rec.Code)
	}
	return got
}

func linkQuery(rt *rapid.T, a *html.Node) string {
	rt.Helper()
	href := attr(a, "href")
	u, err := url.Parse(href)
	if err != nil || !strings.HasPrefix(href, "?") {
		rt.Fatalf("link %q isn't a query: %v", href, err)
	}
	if u.Fragment != "" {
		rt.Fatalf("link %q has a fragment", href)
	}
	if _, err := url.ParseQuery(u.RawQuery); err != nil {
		rt.Fatalf("link %q: %v", href, err)
	}
	return u.RawQuery
}

// verifyLink checks the first link within the node.
func verifyLink(rt *rapid.T, n *html.Node, label string, want *trc.SearchRequest) {
	rt.Helper()
	as := all(n, "a", "")
	if len(as) != 1 {
		rt.Fatalf("%d links for %q", len(as), label)
	}
	if have := textOf(as[0]); have != label {
		rt.Fatalf("link has label %q, want %q", have, label)
	}
	got := follow(rt, linkQuery(rt, as[0]))
	if err := requestEqual(got, want); err != nil {
		rt.Fatalf("link %q for %q: %v", attr(as[0], "href"), label, err)
	}
}

func verifyTraceHTML(rt *rapid.T, div *html.Node, st *trc.StaticTrace, sourceLink trcweb.SourceLinkFunc) {
	rt.Helper()
	metas := all(div, "div", "metadata")
	if len(metas) != 1 {
		rt.Fatalf("trace has %d metadata elements", len(metas))
	}
	meta := metas[0]
	type link struct {
		label, query string
		want         trc.Filter
	}
	var links []link
	links = append(links, link{label: st.TraceID, want: trc.Filter{IDs: []string{st.TraceID}}}, link{label: "JSON", want: trc.Filter{IDs: []string{st.TraceID}}})
	if st.TraceSource != "" {
		links = append(links, link{label: st.TraceSource, want: trc.Filter{Sources: []string{st.TraceSource}}})
	}
	links = append(links, link{label: st.TraceCategory, want: trc.Filter{Category: st.TraceCategory}})
	as := all(meta, "a", "")
	if len(as) != len(links) {
		rt.Fatalf("trace %q has %d links, want %d", st.TraceID, len(as), len(links))
	}
	for i, l := range links {
		if have := textOf(as[i]); have != normText(l.label) {
			rt.Fatalf("trace %q: link has label %q, want %q", st.TraceID, have, l.label)
		}
		query := linkQuery(rt, as[i])
		if vals, _ := url.ParseQuery(query); vals.Has("json") != (i == 1) {
			rt.Fatalf("trace %q: link %q for %q", st.TraceID, query, l.label)
		}
		got := follow(rt, query)
		want, _ := modelNormalize(&trc.SearchRequest{Filter: l.want})
		if err := requestEqual(got, want); err != nil {
			rt.Fatalf("trace %q: link %q for %q: %v", st.TraceID, query, l.label, err)
		}
	}
	var whats []*html.Node
	for _, w := range all(div, "div", "what") {
		for _, s := range all(w, "span", "searchable") {
			whats = append(whats, s)
		}
	}
	if len(whats) != len(st.TraceEvents) {
		rt.Fatalf("trace %q has %d events, want %d", st.TraceID, len(whats), len(st.TraceEvents))
	}
	stacks := all(div, "details", "stack-details")
	if len(stacks) != len(st.TraceEvents) {
		rt.Fatalf("trace %q has %d stacks, want %d", st.TraceID, len(stacks), len(st.TraceEvents))
	}
	var rows []*html.Node
	for _, n := range all(div, "div", "event") {
		if !hasClass(n, "summary") {
			rows = append(rows, n)
		}
	}
	if len(rows) != len(st.TraceEvents)+2 {
		rt.Fatalf("trace %q has %d rows, want %d events and two more", st.TraceID, len(rows), len(st.TraceEvents))
	}
	verifyWhenHTML(rt, st, rows[0], st.TraceStarted, st.TraceStarted)
	prev := st.TraceStarted
	for i, ev := range st.TraceEvents {
		if have := textOf(whats[i]); have != normText(ev.What) {
			rt.Fatalf("trace %q, event %d: text %q, want %q", st.TraceID, i, have, ev.What)
		}
		if hasClass(whats[i].Parent, "error") != ev.IsError {
			rt.Fatalf("trace %q, event %d: error %v, want %v", st.TraceID, i, hasClass(whats[i].Parent, "error"), ev.IsError)
		}
		verifyWhenHTML(rt, st, rows[i+1], ev.When, prev)
		prev = ev.When
		frames := all(stacks[i], "", "searchable")
		if len(frames) != 2*len(ev.Stack) {
			rt.Fatalf("trace %q, event %d: %d frame elements, want %d frames", st.TraceID, i, len(frames), len(ev.Stack))
		}
		for j, fr := range ev.Stack {
			if have := attr(frames[2*j], "title"); have != normText(fr.Function) {
				rt.Fatalf("trace %q, event %d, frame %d: function %q, want %q", st.TraceID, i, j, have, fr.Function)
			}
			if have := textOf(frames[2*j]); !strings.HasSuffix(normText(fr.Function), have) {
				rt.Fatalf("trace %q, event %d, frame %d: function %q, of %q", st.TraceID, i, j, have, fr.Function)
			}
			if have := textOf(frames[2*j+1]); have != normText(modelCompact(fr)) {
				rt.Fatalf("trace %q, event %d, frame %d: location %q, want %q", st.TraceID, i, j, have, modelCompact(fr))
			}
			href := string(sourceLink(fr.FileLine))
			if isLink := frames[2*j+1].Data == "a"; isLink != (href != "") {
				rt.Fatalf("trace %q, event %d, frame %d: location is a link: %v, want %q", st.TraceID, i, j, isLink, href)
			}
			if have := attr(frames[2*j+1], "href"); plainURL.MatchString(href) && have != href {
				rt.Fatalf("trace %q, event %d, frame %d: link %q, want %q", st.TraceID, i, j, have, href)
			}
		}
	}
	verifyWhenHTML(rt, st, rows[len(rows)-1], st.TraceStarted.Add(st.TraceDuration), prev)
	for _, n := range all(div, "span", "time-since") {
		if ts, err := time.Parse(time.RFC3339, attr(n, "title")); err != nil || ts.After(st.TraceStarted) || st.TraceStarted.Sub(ts) >= time.Second {
			rt.Fatalf("trace %q, started %s: start says %q", st.TraceID, st.TraceStarted, attr(n, "title"))
		}
	}
	took := all(div, "div", "duration")
	if len(took) != 1 {
		rt.Fatalf("trace %q has %d durations", st.TraceID, len(took))
	}
	if err := humanizedOK(strings.Trim(textOf(took[0]), " \u00a0\n\t"), st.TraceDuration, st.TraceDuration); err != nil {
		rt.Fatalf("trace %q, duration %s: %v", st.TraceID, st.TraceDuration, err)
	}
	if d, err := time.ParseDuration(attr(took[0], "title")); err != nil || d != st.TraceDuration {
		rt.Fatalf("trace %q, duration %s: title %q", st.TraceID, st.TraceDuration, attr(took[0], "title"))
	}
	var ends []string
	for _, w := range all(div, "div", "meta") {
		ends = append(ends, strings.TrimSpace(textOf(w)))
	}
	want := "active..."
	if st.TraceFinished {
		want = "finished"
	}
	if len(ends) != 2 || ends[1] != want {
		rt.Fatalf("trace %q (finished: %v) begins and ends with %q", st.TraceID, st.TraceFinished, ends)
	}
}

// verifyWhenHTML checks the timestamp in a row, and the time since the row before.
func verifyWhenHTML(rt *rapid.T, st *trc.StaticTrace, row *html.Node, when, prev time.Time) {
	rt.Helper()
	stamps, deltas := all(row, "div", "timestamp"), all(row, "div", "delta")
	if len(stamps) != 1 || len(deltas) != 1 {
		rt.Fatalf("trace %q: row has %d timestamps and %d deltas", st.TraceID, len(stamps), len(deltas))
	}
	if have := strings.TrimSpace(textOf(stamps[0])); len(have) < len("15:04:05") || !strings.HasPrefix(when.Format("15:04:05.000000000"), have) {
		rt.Fatalf("trace %q: row of %s has timestamp %q", st.TraceID, when, have)
	}
	if when.Before(prev) {
		return
	}
	have, ok := strings.CutPrefix(strings.TrimSpace(textOf(deltas[0])), "+")
	if !ok {
		rt.Fatalf("trace %q: row has delta %q", st.TraceID, textOf(deltas[0]))
	}
	if err := humanizedOK(have, when.Sub(prev), when.Sub(prev)); err != nil {
		rt.Fatalf("trace %q: row of %s, after %s: %v", st.TraceID, when, prev, err)
	}
	for _, bar := range all(deltas[0], "div", "progress-bar") {
		var pct, want float64
		if st.TraceDuration > 0 {
			want = 100 * float64(when.Sub(prev)) / float64(st.TraceDuration)
		}
		if _, err := fmt.Sscanf(attr(bar, "style"), "width:%f%%", &pct); err != nil || math.Abs(pct-want) > 1+want/1000 {
			rt.Fatalf("trace %q: row of %s, after %s, of %s: style %q, want %.1f%%: %v", st.TraceID, when, prev, st.TraceDuration, attr(bar, "style"), want, err)
		}
	}
}
