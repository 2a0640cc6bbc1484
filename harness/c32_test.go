package harness

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"pgregory.net/rapid"
)

// ---- C32 ------------------------------------------------------------------

var reconnectFailures = []string{"500", "503", "599", "closed", "ended", "within", "reset", "neterr"}

// reconnect is a stream client of a server that fails.
type reconnect struct {
	failures []string
	final    string
	custom   bool
	interval time.Duration
	traces   int
	params   []string // of the client's URI
	category string   // of the client's filter
	bare     bool     // no scheme in the client's URI
	literal  bool     // not made with NewStreamClient
}

// markingClient is an HTTP client which marks its requests.
type markingClient struct {
	client *http.Client
	n      atomic.Int64
	next   func() string // response to the next request
}

func (mc *markingClient) Do(r *http.Request) (*http.Response, error) {
	mc.n.Add(1)
	switch mc.next() {
	case "neterr":
		return nil, errors.New("network error")
	case "no answer":
		<-r.Context().Done()
		return nil, r.Context().Err()
	}
	r.Header.Set("x-marked", "yes")
	return mc.client.Do(r)
}

func (rc *reconnect) run() error {
	var (
		mtx      sync.Mutex
		arrivals []time.Time
		unmarked int
		want     []*trc.StaticTrace
		types    []string
		bad      []string
	)
	// next response, when it's asked for by the server or by the client.
	next := func() (int, string) {
		mtx.Lock()
		defer mtx.Unlock()
		i := len(arrivals)
		arrivals = append(arrivals, time.Now())
		if i < len(rc.failures) {
			return i, rc.failures[i]
		}
		return i, rc.final
	}
	// send some traces, some of which may be large.
	send := func(w http.ResponseWriter, request int) {
		w.Header().Set("content-type", "text/event-stream; charset=utf-8")
		w.WriteHeader(200)
		for i := 0; i < rc.traces; i++ {
			st := &trc.StaticTrace{TraceID: fmt.Sprintf("%d.%d", request, i), TraceStarted: baseTime, TraceCategory: strings.Repeat("x", i*i*1000), TraceFinished: i%2 == 0, TraceErrored: i%3 == 0, TraceEvents: []trc.Event{}}
			for j := 0; j < (7-i*3)%4; j++ { // fewer and more than before
				st.TraceEvents = append(st.TraceEvents, trc.Event{When: baseTime.Add(time.Duration(j)), What: fmt.Sprint(st.TraceID, " ", j), IsError: j%2 == 0})
			}
			data, err := json.Marshal(st)
			must(err)
			mtx.Lock()
			want, types = append(want, st), append(types, "trace")
			mtx.Unlock()
			body := string(data)
			switch (i + rc.traces) % 5 {
			case 0: // several lines, which are joined
				body = strings.Replace(body, `,"`, ",\ndata: \"", 1)
			case 1:
				io.WriteString(w, ": comment\n\n")
			case 2:
				io.WriteString(w, "event: other\ndata: foo\nid: 1\n\n")
				mtx.Lock()
				types = append(types[:len(types)-1], "other", "trace")
				mtx.Unlock()
			case 3:
				io.WriteString(w, "event: trace\ndata:\n\nevent: trace\n\n\n\n") // nothing
			}
			fmt.Fprintf(w, "event: trace\ndata: %s\n\n", body)
			w.(http.Flusher).Flush()
		}
	}
	var rs *remoteStream
	begun := make(chan struct{})
	received := func() int { <-begun; return rs.count() }
	srv, uri := uniqueServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var i int
		var what string
		query := r.URL.Query()
		if strings.Join(query["x"], ",") != strings.Join(rc.params, ",") || query.Get("category") != rc.category || r.Method != "GET" || !strings.Contains(r.Header.Get("accept"), "text/event-stream") {
			mtx.Lock()
			bad = append(bad, fmt.Sprintf("%s %s (accept %s)", r.Method, r.URL, r.Header.Get("accept")))
			mtx.Unlock()
		}
		if rc.custom {
			mtx.Lock()
			if r.Header.Get("x-marked") == "" {
				unmarked++
			}
			if i = len(arrivals) - 1; i < len(rc.failures) {
				what = rc.failures[max(i, 0)]
			} else {
				what = rc.final
			}
			mtx.Unlock()
		} else {
			i, what = next()
		}
		w.Header().Set("connection", "close") // net/http may retry requests on idle connections by itself
		switch what {
		case "closed":
			panic(http.ErrAbortHandler)
		case "ended":
			send(w, i)
		case "within":
			send(w, i)
			io.WriteString(w, "event: trace\ndata: {}\n") // no empty line
		case "reset": // when everything was received, so that nothing is lost
			send(w, i)
			mtx.Lock()
			n := len(want)
			mtx.Unlock()
			w.(http.Flusher).Flush()
			eventually(waitLimit, func() bool { return received() >= n || r.Context().Err() != nil })
			io.WriteString(w, "event: tra")
			w.(http.Flusher).Flush()
			conn, _, err := w.(http.Hijacker).Hijack()
			must(err)
			conn.(*net.TCPConn).SetLinger(0)
			conn.Close()
		case "bad trace":
			send(w, i)
			mtx.Lock()
			types = append(types, "trace")
			mtx.Unlock()
			io.WriteString(w, "event: trace\ndata: {\n\n")
			w.(http.Flusher).Flush()
			<-r.Context().Done()
		case "bad stats":
			send(w, i)
			mtx.Lock()
			types = append(types, "stats")
			mtx.Unlock()
			io.WriteString(w, "event: stats\ndata: []\n\nevent: trace\ndata: {}\n\n")
		case "stream":
			send(w, i)
			w.(http.Flusher).Flush()
			<-r.Context().Done()
		case "html":
			w.Header().Set("content-type", "text/html")
			io.WriteString(w, "<html>event: trace\ndata: {}\n\n</html>")
		case "302":
			w.WriteHeader(302) // without a location
		case "cancel":
		default:
			code, err := strconv.Atoi(what)
			must(err)
			w.WriteHeader(code)
		}
	}))
	defer closeServer(srv)
	if rc.bare {
		uri = strings.TrimPrefix(uri, "http://")
	}
	for i, p := range rc.params {
		uri += []string{"?", "&"}[min(i, 1)] + "x=" + url.QueryEscape(p)
	}
	sc := trcweb.NewStreamClient(uri)
	if rc.literal {
		sc = &trcweb.StreamClient{URI: uri}
	}
	sc.RetryInterval = rc.interval
	mc := &markingClient{client: &http.Client{Transport: &http.Transport{}}}
	defer mc.client.CloseIdleConnections()
	if rc.custom {
		sc.HTTPClient = mc
		mc.next = func() string { _, what := next(); return what }
	}
	rs = clientStream(sc, trc.Filter{Category: rc.category}, 10)
	close(begun)
	defer rs.cancel()
	requests := func() int {
		mtx.Lock()
		defer mtx.Unlock()
		return len(arrivals)
	}
	returned := func() bool {
		select {
		case <-rs.done:
			return true
		default:
			return false
		}
	}
	wantRequests := len(rc.failures) + 1
	wantErr := false
	switch rc.final {
	case "cancel", "no answer":
		if rc.final == "cancel" {
			wantRequests = len(rc.failures)
		}
		if !eventually(waitLimit, func() bool { return requests() >= wantRequests }) {
			return fmt.Errorf("%d requests, want %d", requests(), wantRequests)
		}
		time.Sleep(20 * time.Millisecond) // so that it's likely to wait
		rs.cancel()
	case "stream":
		if !eventually(waitLimit, func() bool { return requests() >= wantRequests || returned() }) {
			return fmt.Errorf("%d requests, want %d", requests(), wantRequests)
		}
		count := rc.traces
		for _, f := range rc.failures {
			if f == "ended" || f == "within" || f == "reset" {
				count += rc.traces
			}
		}
		if !eventually(waitLimit, func() bool { return rs.count() >= count || returned() }) {
			return fmt.Errorf("%d traces were received, want %d", rs.count(), count)
		}
		if returned() {
			return fmt.Errorf("Stream returned by itself: %v", rs.err)
		}
		rs.cancel()
	default:
		wantErr = rc.final != "204"
	}
	if !eventually(waitLimit, returned) {
		return fmt.Errorf("Stream hasn't returned")
	}
	rs.mtx.Lock()
	defer rs.mtx.Unlock()
	mtx.Lock()
	defer mtx.Unlock()
	if (rs.err != nil) != wantErr {
		return fmt.Errorf("Stream returned error %v", rs.err)
	}
	if len(arrivals) != wantRequests {
		return fmt.Errorf("%d requests, want %d", len(arrivals), wantRequests)
	}
	if unmarked > 0 || rc.custom && int(mc.n.Load()) < wantRequests {
		return fmt.Errorf("%d requests of %d weren't made with the HTTP client", wantRequests-int(mc.n.Load()), wantRequests)
	}
	if len(bad) > 0 {
		return fmt.Errorf("bad requests, for URI %q and category %q: %q", uri, rc.category, bad)
	}
	interval := max(rc.interval, time.Second)
	if rc.interval == 0 {
		interval = 3 * time.Second
	}
	for i := 1; i < len(arrivals); i++ {
		if gap := arrivals[i].Sub(arrivals[i-1]); gap < interval-10*time.Millisecond {
			return fmt.Errorf("request %d was made %s after the previous one", i, gap)
		}
	}
	have := rs.traces
	if rc.final == "cancel" && len(have) < len(want) { // canceled in between
		want, types = want[:len(have)], rs.types
	}
	if err := tracesEqual(have, want); err != nil {
		return fmt.Errorf("received traces: %w", err)
	}
	if fmt.Sprint(rs.types) != fmt.Sprint(types) {
		return fmt.Errorf("OnRead was called with %q, want %q", rs.types, types)
	}
	return nil
}

func TestC32(t *testing.T) {
	checkN(t, "reconnect", "stream clients (up to 50 per case, with the default or another HTTP client) of servers whose first responses are failures (5xx, network errors, closed and reset connections, streams that end between or within events), followed by a stream (with all kinds of framing), an unrecoverable response, invalid events, or the client being canceled while it waits; requests are made to the client's URI (with and without a scheme and parameters) and with its filter, with the client's HTTP client, at least the retry interval apart, all traces that were sent completely are received once and in order, and Stream returns an error only if there was an unrecoverable response; non-trivial: some server fails first", 8, 80, func(rt *rapid.T, k *kase) {
		var all []*reconnect
		for i, n := 0, rapid.IntRange(1, 50).Draw(rt, "clients"); i < n; i++ {
			rc := &reconnect{
				failures: rapid.SliceOfN(rapid.SampledFrom(reconnectFailures), 0, 2).Draw(rt, "failures"),
				final:    rapid.SampledFrom([]string{"stream", "stream", "404", "204", "206", "302", "400", "html", "bad trace", "bad stats", "cancel", "no answer"}).Draw(rt, "final"),
				custom:   rapid.Bool().Draw(rt, "custom"),
				interval: rapid.SampledFrom([]time.Duration{1, time.Millisecond, time.Second, 1100 * time.Millisecond}).Draw(rt, "interval"),
				traces:   rapid.IntRange(0, 5).Draw(rt, "traces"),
				params:   rapid.SampledFrom([][]string{nil, {"1"}, {"a b", "c&d=e"}, {"", "日本"}}).Draw(rt, "params"),
				category: rapid.SampledFrom([]string{"", "cat", "a&b"}).Draw(rt, "category"),
				bare:     rapid.Bool().Draw(rt, "bare"),
				literal:  rapid.Bool().Draw(rt, "literal"),
			}
			rc.custom = rc.custom || rc.final == "no answer"
			if rc.final == "cancel" {
				rc.failures = rapid.SliceOfN(rapid.SampledFrom(reconnectFailures), 1, 1).Draw(rt, "failure")
				rc.interval = time.Hour // which is limited to a minute
			}
			for _, what := range rc.failures {
				rc.custom = rc.custom || what == "neterr"
			}
			if len(rc.failures) == 1 && rc.final != "cancel" && seldom(rt, "default interval") {
				rc.interval = 0
			}
			k.interesting(len(rc.failures) > 0)
			k.notef("%v then %s, custom=%v, interval %s", rc.failures, rc.final, rc.custom, rc.interval)
			all = append(all, rc)
		}
		var wg sync.WaitGroup
		errs := make([]error, len(all))
		for i, rc := range all {
			wg.Add(1)
			go func() { defer wg.Done(); errs[i] = rc.run() }()
		}
		wg.Wait()
		for i, err := range errs {
			if err != nil {
				rt.Fatalf("client %d (%v then %s, custom=%v, interval %s): %v", i, all[i].failures, all[i].final, all[i].custom, all[i].interval, err)
			}
		}
	})
}
