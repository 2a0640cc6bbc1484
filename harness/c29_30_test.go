package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"pgregory.net/rapid"
)

// ---- C29 ------------------------------------------------------------------

// buildCommand builds cmd/trc.
func buildCommand(t *testing.T) (path string) {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	dir, remove := tempDir("verif-cmd-")
	t.Cleanup(remove)
	path = filepath.Join(dir, "trc")
	cmd := exec.Command("go", "build", "-buildvcs=false", "-o", path, "./cmd/trc")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off")
	if out, err := cmd.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("HARNESS-ERROR: build: %v\n%s", err, out))
	}
	return path
}

// process is a running trc command.
type process struct {
	cmd            *exec.Cmd
	stdout, stderr lockedBuf
	done           chan struct{}
	err            error
}

func startCommand(path string, env []string, args ...string) *process {
	p := &process{cmd: exec.Command(path, args...), done: make(chan struct{})}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "TRC_") && !strings.HasPrefix(strings.ToLower(e), "http_proxy=") {
			p.cmd.Env = append(p.cmd.Env, e)
		}
	}
	p.cmd.Env = append(p.cmd.Env, env...)
	p.cmd.Stdout, p.cmd.Stderr = &p.stdout, &p.stderr
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(p.cmd.Start())
	go func() {
		p.err = p.cmd.Wait()
		close(p.done)
	}()
	return p
}

func (p *process) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

// wait returns the exit code.
func (p *process) wait(rt *rapid.T, what string) int {
	rt.Helper()
	select {
	case <-p.done:
	case <-time.After(limited(waitLimit)):
		tookTooLong.Store(true)
		p.kill()
		rt.Fatalf("%s: the command doesn't end", what)
	}
	if s := p.stderr.String(); strings.Contains(s, "panic:") || strings.Contains(s, "goroutine ") || strings.Contains(s, "DATA RACE") {
		rt.Fatalf("%s: the command crashed: %s", what, clip(s))
	}
	return p.cmd.ProcessState.ExitCode()
}

// cmdline builds arguments and environment from settings.
type cmdline struct {
	args []string
	env  []string
}

func (c *cmdline) add(rt *rapid.T, short, long, value string) {
	forms := []string{"--long value"}
	if value != "" {
		forms = append(forms, "--long=value")
		if short != "" && !strings.HasPrefix(value, "-") {
			forms = append(forms, "-svalue")
		}
	}
	if short != "" {
		forms = append(forms, "-s value")
	}
	switch rapid.SampledFrom(forms).Draw(rt, "form") {
	case "--long value":
		c.args = append(c.args, "--"+long, value)
	case "--long=value":
		c.args = append(c.args, "--"+long+"="+value)
	case "-s value":
		c.args = append(c.args, "-"+short, value)
	case "-svalue":
		c.args = append(c.args, "-"+short+value)
	}
}

// single adds a setting that may also come from the environment.
func (c *cmdline) single(rt *rapid.T, short, long, value string) {
	if value != "" && rapid.IntRange(0, 7).Draw(rt, "env") == 0 {
		c.env = append(c.env, "TRC_"+strings.ToUpper(strings.ReplaceAll(long, "-", "_"))+"="+value)
		return
	}
	c.add(rt, short, long, value)
}

func (c *cmdline) boolean(rt *rapid.T, short, long string, value bool) {
	if !value {
		if rapid.IntRange(0, 9).Draw(rt, "explicit") == 0 {
			c.args = append(c.args, "--"+long+"=false")
		}
		return
	}
	forms := []string{"--" + long, "--" + long + "=true"}
	if short != "" {
		forms = append(forms, "-"+short)
	}
	c.args = append(c.args, rapid.SampledFrom(forms).Draw(rt, "form"))
}

// filter adds a filter's flags. Sources and IDs without duplicates.
func (c *cmdline) filter(rt *rapid.T, f trc.Filter) {
	var adds []func()
	for _, s := range f.Sources {
		s := s
		adds = append(adds, func() { c.add(rt, "", "source", s) })
	}
	for i := range f.IDs {
		i := i
		adds = append(adds, func() { c.add(rt, "i", "id", f.IDs[i]) })
	}
	if f.Category != "" {
		adds = append(adds, func() { c.single(rt, "c", "category", f.Category) })
	}
	if f.Query != "" {
		adds = append(adds, func() { c.single(rt, "q", "query", f.Query) })
	}
	if f.MinDuration != nil {
		adds = append(adds, func() { c.single(rt, "d", "duration", f.MinDuration.String()) })
	}
	adds = append(adds,
		func() { c.boolean(rt, "a", "active", f.IsActive) },
		func() { c.boolean(rt, "f", "finished", f.IsFinished) },
		func() { c.boolean(rt, "", "success", f.IsSuccess) },
		func() { c.boolean(rt, "", "errored", f.IsErrored) },
	)
	for _, add := range adds {
		add()
	}
}

// genCommandFilter produces filters that can be given as arguments.
func genCommandFilter(rt *rapid.T, pools filterPools, invalid bool) trc.Filter {
	f := genFilter(pools, invalid).Draw(rt, "filter")
	unique := func(ss []string) (res []string) {
		for _, s := range ss {
			if !contains(res, s) && !strings.Contains(s, "\x00") {
				res = append(res, s)
			}
		}
		return res
	}
	f.Sources, f.IDs = unique(f.Sources), unique(f.IDs)
	f.Query = strings.ReplaceAll(f.Query, "\x00", "")
	f.Category = strings.ReplaceAll(f.Category, "\x00", "")
	return f
}

type spySearcher struct {
	trc.Searcher
	mtx  sync.Mutex
	reqs []*trc.SearchRequest
}

func (ss *spySearcher) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	ss.mtx.Lock()
	ss.reqs = append(ss.reqs, copyRequest(req))
	ss.mtx.Unlock()
	return ss.Searcher.Search(ctx, req)
}

// genURI writes a server's URI in one of the supported ways.
func genURI(rt *rapid.T, cl *cmdline, first bool, uri, base string) (string, bool) {
	needPath := false
	if first && rapid.IntRange(0, 3).Draw(rt, "named") == 0 { // can't be resolved, but the server is its own proxy
		host := strings.TrimSuffix(strings.TrimPrefix(uri, "http://"), base)
		cl.env = append(cl.env, "http_proxy=http://"+host)
		uri = "http://" + rapid.SampledFrom([]string{"httpd.test:8080", "server.test", "https.test", "http:80"}).Draw(rt, "name") + base
	}
	if rapid.IntRange(0, 3).Draw(rt, "strip") == 0 {
		uri, needPath = strings.TrimSuffix(uri, base)+rapid.SampledFrom([]string{"", "/", "/other"}).Draw(rt, "path"), true
	}
	if rapid.Bool().Draw(rt, "noscheme") {
		uri = strings.TrimPrefix(uri, "http://")
	}
	if rapid.IntRange(0, 9).Draw(rt, "space") == 0 {
		uri = " " + uri + " "
	}
	return uri, needPath
}

func TestC29(t *testing.T) {
	bin := buildCommand(t)

	checkN(t, "search", "the search command with generated flags (long, short and environment forms), formats, URI forms, and 1 to 3 servers of which some fail in a generated way; the servers see the described request, and the output is compared with the reference search over the working servers; non-trivial: at least one trace is returned, and there's a filter", 800, 8000, func(rt *rapid.T, k *kase) {
		clock := &worldClock{now: baseTime, prefix: "M"}
		cats := rapid.SliceOfNDistinct(genName(), 1, 3, rapid.ID[string]).Draw(rt, "cats")
		n := rapid.IntRange(1, 3).Draw(rt, "servers")
		var (
			cl       cmdline
			worlds   []*world
			spies    []*spySearcher
			pools    = filterPools{cats: cats}
			failures int
			uris     []string
			retained []trc.Trace
			sources  []string
			paths    bool
		)
		base := fmt.Sprintf(rapid.SampledFrom([]string{"/s%d", "/s%d/Traces"}).Draw(rt, "base"), serverSerial.Add(1))
		for i := 0; i < n; i++ {
			var handler http.Handler
			if rapid.IntRange(0, 6).Draw(rt, "fail?") == 0 {
				failures++
				kind := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5}).Draw(rt, "fail")
				other := rapid.SampledFrom([]string{"{}", "null", `{"response":{}}`, `{"response":{"traces":[null,null],"stats":{"bucketing":[0],"categories":{"a":null}}}}`}).Draw(rt, "other")
				k.notef("server %d fails with %d", i, kind)
				handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					switch kind {
					case 1:
						io.WriteString(w, "garbage")
					case 2:
						io.WriteString(w, `{"request":{"bucketing"`)
					case 3:
						panic(http.ErrAbortHandler)
					case 4:
						io.WriteString(w, "")
					case 5:
						io.WriteString(w, other)
					}
				})
				if kind == 0 {
					code := rapid.SampledFrom([]int{500, 503, 404, 418, 204}).Draw(rt, "code")
					handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(code) })
				}
			} else {
				w := genWorld(rt, worldConfig{source: fmt.Sprint("src", i), minN: 0, maxN: 8, cats: cats, clock: clock, maxEvents: 2})
				worlds = append(worlds, w)
				pools.sources = append(pools.sources, w.model.source)
				pools.ids = append(pools.ids, w.pools.ids...)
				retained = append(retained, w.retained()...)
				sources = append(sources, w.model.source)
				spy := &spySearcher{Searcher: w.col}
				spies = append(spies, spy)
				handler = &trcweb.TraceServer{Collector: w.col, Searcher: spy}
			}
			srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				if r.URL.Path != base {
					panic(http.ErrAbortHandler)
				}
				handler.ServeHTTP(w, r)
			}))
			srv.Config.ErrorLog = discardLogger
			srv.Start()
			defer closeServer(srv)
			uri, needPath := genURI(rt, &cl, i == 0, srv.URL+base, base)
			paths = paths || needPath
			uris = append(uris, uri)
		}
		if paths || rapid.IntRange(0, 9).Draw(rt, "uri-path") == 0 {
			cl.single(rt, "", "uri-path", base)
		}
		for _, uri := range uris {
			cl.add(rt, "u", "uri", uri)
			if rapid.IntRange(0, 9).Draw(rt, "repeat") == 0 { // no effect
				cl.add(rt, "u", "uri", uri)
			}
		}
		req := &trc.SearchRequest{Filter: genCommandFilter(rt, pools, true), Limit: 10, StackDepth: -1}
		cl.filter(rt, req.Filter)
		if rapid.Bool().Draw(rt, "limit?") {
			req.Limit = genLimit().Draw(rt, "limit")
			cl.single(rt, "n", "limit", fmt.Sprint(req.Limit))
		}
		if rapid.Bool().Draw(rt, "depth?") {
			depth := rapid.SampledFrom([]int{0, -1, 1, 2, 3, 100, 101, 250, 1000, 1 << 31}).Draw(rt, "depth")
			cl.single(rt, "", "stack-depth", fmt.Sprint(depth))
			if req.StackDepth = depth; depth == 0 {
				req.StackDepth = -1
			}
		}
		output := rapid.SampledFrom([]string{"", "ndjson", "prettyjson"}).Draw(rt, "output")
		if output != "" {
			cl.single(rt, "o", "output", output)
		}
		level := rapid.SampledFrom([]string{"", "i", "info", "d", "debug", "t", "trace", "n", "none"}).Draw(rt, "log")
		if level != "" {
			cl.single(rt, "l", "log", level)
		}
		withRequest, withStats := rapid.Bool().Draw(rt, "request"), rapid.Bool().Draw(rt, "stats")
		cl.boolean(rt, "", "include-request", withRequest)
		cl.boolean(rt, "", "include-stats", withStats)

		k.notef("%q %q", cl.env, cl.args)
		norm, problems := modelNormalize(req)
		var want modelResult
		for _, w := range worlds {
			r := w.model.search(norm)
			want.total += r.total
			want.match += r.match
			want.traces = append(want.traces, r.traces...)
		}
		newestFirst(want.traces)
		if len(want.traces) > norm.Limit {
			want.traces = want.traces[:norm.Limit]
		}
		k.interesting(len(want.traces) > 0 && showFilter(req.Filter) != showFilter(trc.Filter{}))
		k.label(failures > 0, "failing servers")
		k.label(n > 1, "several servers")

		p := startCommand(bin, cl.env, append([]string{"search"}, cl.args...)...)
		defer p.kill()
		code := p.wait(rt, "search")
		stdout := p.stdout.String()
		if code != 0 {
			rt.Fatalf("exit code %d: %s", code, clip(p.stderr.String()))
		}
		for i, spy := range spies {
			if len(spy.reqs) != 1 {
				rt.Fatalf("server %d got %d requests", i, len(spy.reqs))
			}
			if err := requestEqual(spy.reqs[0], norm); err != nil {
				rt.Fatalf("request received by server %d: %v", i, err)
			}
		}
		var res trc.SearchResponse
		dec := json.NewDecoder(strings.NewReader(stdout))
		if err := dec.Decode(&res); err != nil {
			rt.Fatalf("output %s: %v", clip(stdout), err)
		}
		if rest := stdout[dec.InputOffset():]; rest != "\n" {
			rt.Fatalf("output has extra %s", clip(rest))
		}
		if output == "prettyjson" {
			var buf bytes.Buffer
			if err := json.Indent(&buf, []byte(stdout), "", "    "); err != nil {
				rt.Fatalf("output %s: %v", clip(stdout), err)
			}
			if buf.String() != stdout {
				rt.Fatalf("output isn't pretty: %s", clip(stdout))
			}
		} else if strings.Count(stdout, "\n") != 1 {
			rt.Fatalf("output isn't a single line: %s", clip(stdout))
		}
		if (res.Request != nil) != withRequest {
			rt.Fatalf("request in output: %v, want %v", res.Request != nil, withRequest)
		}
		if (res.Stats != nil) != withStats {
			rt.Fatalf("stats in output: %v, want %v", res.Stats != nil, withStats)
		}
		if withStats {
			if err := statsMatch(res.Stats, norm.Bucketing, modelStats(norm.Bucketing, retained)); err != nil {
				rt.Fatalf("stats: %v", err)
			}
		}
		if !withRequest {
			res.Request = norm
		}
		if len(worlds) == 0 { // only problems
			problems = 0
			if len(res.Problems) < failures {
				rt.Fatalf("problems %q, want at least %d", res.Problems, failures)
			}
			return
		}
		verifySearch(rt, "search", &res, nil, want, norm, problems+failures, sources)
		if strings.HasPrefix(level, "n") && p.stderr.String() != "" {
			rt.Fatalf("stderr: %s, want nothing", clip(p.stderr.String()))
		}
	})

	checkN(t, "stream", "the stream command with generated flags, against 1 to 4 servers with traces that are published in a generated order; the servers see the described filter and buffer size, the output has each matching trace once, and in order for each server; some servers first fail, up to four times, or interrupt the stream; an interrupt ends the command with exit code zero; non-trivial: at least one trace matches", 40, 600, func(rt *rapid.T, k *kase) {
		var cl cmdline
		n := rapid.IntRange(1, 4).Draw(rt, "servers")
		f := genCommandFilter(rt, filterPools{sources: []string{"src0", "src1"}, cats: []string{"a", "b"}}, false)
		if rapid.Bool().Draw(rt, "loose") {
			f.IDs, f.Sources, f.Category = nil, nil, ""
		}
		cl.filter(rt, f)
		events := rapid.Bool().Draw(rt, "events")
		cl.boolean(rt, "e", "events", events)
		slowRetry := false
		wantFilter := copyFilter(f)
		wantFilter.IsActive, wantFilter.IsFinished = false, !events
		sendbuf := 100
		if rapid.Bool().Draw(rt, "sendbuf?") {
			sendbuf = rapid.SampledFrom([]int{50, 200, 100000}).Draw(rt, "sendbuf")
			cl.single(rt, "", "send-buffer", fmt.Sprint(sendbuf))
		}
		if rapid.Bool().Draw(rt, "recvbuf?") {
			cl.single(rt, "", "recv-buffer", fmt.Sprint(rapid.SampledFrom([]int{0, 1, 1000}).Draw(rt, "recvbuf")))
		}
		if rapid.Bool().Draw(rt, "stats?") {
			cl.single(rt, "", "stats-interval", rapid.SampledFrom([]string{"1ns", "5ms", "1s", "1h"}).Draw(rt, "stats"))
		}
		if rapid.Bool().Draw(rt, "retry?") {
			s := rapid.SampledFrom([]string{"0s", "5ms", "1s"}).Draw(rt, "retry")
			cl.single(rt, "", "retry-interval", s)
			slowRetry = s != "5ms" // the stream client's minimum is a second, but its default is three
		} else {
			cl.args = append(cl.args, "--retry-interval=10ms")
		}
		output := rapid.SampledFrom([]string{"", "ndjson", "prettyjson"}).Draw(rt, "output")
		if output != "" {
			cl.single(rt, "o", "output", output)
		}
		if level := rapid.SampledFrom([]string{"", "i", "d", "t", "n"}).Draw(rt, "log"); level != "" {
			cl.single(rt, "l", "log", level)
		}
		base := fmt.Sprintf(rapid.SampledFrom([]string{"/s%d", "/s%d/Traces"}).Draw(rt, "base"), serverSerial.Add(1))
		type server struct {
			broker *trc.Broker
			spy    *spyStreamer
			model  *subscription
			srv    *httptest.Server
			mtx    sync.Mutex
			bufs   []string
		}
		var servers []*server
		paths := false
		for i := 0; i < n; i++ {
			s := &server{broker: trc.NewBroker(), model: &subscription{filter: wantFilter, ch: make(chan trc.Trace, 1000)}}
			s.spy = &spyStreamer{Streamer: s.broker}
			servers = append(servers, s)
			handler := &trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Streamer: s.spy}
			failFirst := rapid.SampledFrom([]int{0, 0, 0, 0, 404, 500, 200}).Draw(rt, "first")
			failures := rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(rt, "failures")
			if failFirst == 200 || failFirst == 500 || slowRetry { // takes at least a second each
				failures = 1
			}
			k.label(failFirst != 0, "first request fails")
			requests := 0
			srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				if r.URL.Path != base {
					w.WriteHeader(http.StatusGone)
					return
				}
				s.mtx.Lock()
				requests++
				s.bufs = append(s.bufs, r.URL.Query().Get("sendbuf"))
				fail := requests <= failures && failFirst != 0
				s.mtx.Unlock()
				if fail {
					w.WriteHeader(failFirst)
					return
				}
				handler.ServeHTTP(w, r)
			}))
			srv.Config.ErrorLog = discardLogger
			srv.Start()
			defer closeServer(srv)
			s.srv = srv
			uri, needPath := genURI(rt, &cl, i == 0, srv.URL+base, base)
			paths = paths || needPath
			cl.add(rt, "u", "uri", uri)
		}
		if paths {
			cl.single(rt, "", "uri-path", base)
		}
		k.notef("%q %q", cl.env, cl.args)
		p := startCommand(bin, cl.env, append([]string{"stream"}, cl.args...)...)
		defer p.kill()
		for i, s := range servers {
			if !eventually(waitLimit, s.spy.subscribed) {
				rt.Fatalf("the command doesn't stream from server %d: %s", i, clip(p.stderr.String()))
			}
			s.spy.mtx.Lock()
			if err := filterEqual(s.spy.filters[0], wantFilter); err != nil {
				rt.Fatalf("filter received by server %d: %v", i, err)
			}
			s.spy.mtx.Unlock()
			for _, b := range s.bufs {
				if b != fmt.Sprint(sendbuf) {
					rt.Fatalf("send buffer received by server %d: %q, want %d", i, b, sendbuf)
				}
			}
		}
		want := map[string][]*trc.StaticTrace{}
		total := 0
		interrupt := -1
		if rapid.IntRange(0, 7).Draw(rt, "interrupt?") == 0 {
			interrupt = rapid.IntRange(0, 10).Draw(rt, "interrupt")
		}
		for i, m := 0, rapid.IntRange(1, 25).Draw(rt, "n"); i < m; i++ {
			j := rapid.IntRange(0, n-1).Draw(rt, "server")
			s := servers[j]
			if i == interrupt { // the stream fails, and begins again
				k.label(true, "interrupted stream")
				if !eventually(waitLimit, func() bool { return strings.Count(p.stdout.String(), `"duration":`) >= total }) {
					rt.Fatalf("output has fewer than %d traces: %s", total, clip(p.stdout.String()))
				}
				s.srv.CloseClientConnections()
				if !eventually(waitLimit, func() bool { return s.spy.done() && s.spy.resubscribed() }) {
					rt.Fatalf("the command doesn't stream from server %d again, after its connection was closed: %s", j, clip(p.stderr.String()))
				}
			}
			tr, st, after := publishableID(rt, filterPools{cats: []string{"a", "b"}}, fmt.Sprintf("T%d", i))
			s.broker.Publish(bg, tr)
			after()
			if before := s.model.model.Sends; true {
				s.model.publish(st)
				if s.model.model.Sends > before {
					want[fmt.Sprint(j)] = append(want[fmt.Sprint(j)], st)
					total++
				}
			}
		}
		k.interesting(total > 0)
		k.label(total > 1, "several match")
		// The traces' IDs say which server they're from.
		from := map[string]string{}
		for key, sts := range want {
			for _, st := range sts {
				from[st.TraceID] = key
			}
		}
		parse := func() (have map[string][]*trc.StaticTrace, count int, complete bool) {
			have = map[string][]*trc.StaticTrace{}
			out := p.stdout.String()
			dec := json.NewDecoder(strings.NewReader(out))
			for {
				var st trc.StaticTrace
				if err := dec.Decode(&st); err != nil {
					return have, count, err == io.EOF
				}
				have[from[st.TraceID]] = append(have[from[st.TraceID]], &st)
				count++
			}
		}
		if !eventually(waitLimit, func() bool { _, count, _ := parse(); return count >= total }) {
			rt.Fatalf("output has fewer than %d traces: %s", total, clip(p.stdout.String()))
		}
		select {
		case <-p.done:
			rt.Fatalf("the command ended by itself: %s", clip(p.stderr.String()))
		default:
		}
		must(p.cmd.Process.Signal(os.Interrupt))
		if code := p.wait(rt, "interrupted stream"); code != 0 {
			rt.Fatalf("exit code %d after an interrupt: %s", code, clip(p.stderr.String()))
		}
		have, count, complete := parse()
		if count != total || !complete {
			rt.Fatalf("output has %d traces, want %d (%v): %s", count, total, complete, clip(p.stdout.String()))
		}
		for key := range want {
			if err := tracesEqual(have[key], want[key]); err != nil {
				rt.Fatalf("traces of server %s: %v", key, err)
			}
		}
		if out := p.stdout.String(); output != "prettyjson" && strings.Count(out, "\n") != total {
			rt.Fatalf("output has %d lines, want %d", strings.Count(out, "\n"), total)
		}
	})

	checkN(t, "invalid", "command lines with one invalid part (unknown or malformed flags, missing values, no or malformed URI, unknown commands, invalid intervals and buffers) among valid ones: there's an error message, a non-zero exit code (except for help), nothing on stdout, and no request; non-trivial: always", 400, 5000, func(rt *rapid.T, k *kase) {
		requests := 0
		var mtx sync.Mutex
		srv, uri := uniqueServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			mtx.Lock()
			defer mtx.Unlock()
			requests++
			w.WriteHeader(404)
		}))
		defer closeServer(srv)
		k.interesting(true)
		command := rapid.SampledFrom([]string{"search", "stream"}).Draw(rt, "command")
		var cl cmdline
		cl.filter(rt, genCommandFilter(rt, filterPools{}, true))
		bads := [][]string{
			{"--nosuchflag"}, {"-z"}, {"--limit-x=3"}, {"-l", "loud"}, {"--log=verbose"}, {"--output=xml"}, {"-o", "yaml"}, {"--duration=fast"}, {"-d", "1"},
			{"--active=maybe"}, {"--uri", "http://[::1"}, {"--uri", "http://host:port:port/%zz"}, {"--uri=http://a b/"},
		}
		if command == "search" {
			bads = append(bads, []string{"--limit=many"}, []string{"-n", "1.5"}, []string{"--stack-depth=deep"}, []string{"--events"}, []string{"--limit"}, []string{"-n"})
		} else {
			bads = append(bads, []string{"--send-buffer=x"}, []string{"--stats-interval=0s"}, []string{"--stats-interval=-1s"}, []string{"--recv-buffer=-1"}, []string{"--retry-interval=soon"}, []string{"--limit=3"}, []string{"--stats-interval"})
		}
		bad := rapid.SampledFrom(bads).Draw(rt, "bad")
		nouri := rapid.IntRange(0, 9).Draw(rt, "nouri") == 0
		if nouri {
			bad = nil
		} else {
			cl.args = append([]string{"--uri=" + uri}, cl.args...)
		}
		help := rapid.IntRange(0, 9).Draw(rt, "help") == 0
		if help {
			bad = []string{rapid.SampledFrom([]string{"--help", "-h"}).Draw(rt, "help")}
		}
		unknown := false
		args := append([]string{command}, cl.args...)
		args = append(args, bad...)
		if !nouri && !help && rapid.IntRange(0, 9).Draw(rt, "unknown") == 0 {
			args = append([]string{"nosuchcommand"}, cl.args...)
			unknown = true
		}
		k.notef("%q %q", cl.env, args)
		p := startCommand(bin, cl.env, args...)
		defer p.kill()
		code := p.wait(rt, "invalid")
		if (code == 0) != help && !unknown {
			rt.Fatalf("exit code %d: %s", code, clip(p.stderr.String()))
		}
		if help || unknown { // help, possibly with an error
			if !strings.Contains(p.stderr.String(), "FLAGS") {
				rt.Fatalf("no help: %s", clip(p.stderr.String()))
			}
		} else if !strings.Contains(p.stderr.String(), "error: ") {
			rt.Fatalf("no error message: %s", clip(p.stderr.String()))
		}
		if p.stdout.String() != "" {
			rt.Fatalf("output: %s", clip(p.stdout.String()))
		}
		mtx.Lock()
		defer mtx.Unlock()
		if requests > 0 {
			rt.Fatalf("%d requests made", requests)
		}
	})
}

// ---- C30 ------------------------------------------------------------------

// span is when something happened, in logical time: at some point after begin,
// and before end.
type span struct{ begin, end int64 }

func (a span) before(b span) bool { return a.end < b.begin }

type logicalClock struct{ n atomic.Int64 }

func (lc *logicalClock) span(f func()) (s span) {
	s.begin = lc.n.Add(1)
	f()
	s.end = lc.n.Add(1)
	return s
}

// made is a trace created by a worker.
type made struct {
	id, cat string
	span    span
	whats   []string // events, in order
	errored bool
	finish  bool
}

// found is the result of a search.
type found struct {
	span span
	res  *trc.SearchResponse
}

type resized struct {
	span span
	size int
}

// worker is a list of things to do, for one goroutine.
type workerOp struct {
	kind   int // 0: new trace, 1: event, 2: error, 3: finish, 4: yield
	cat    string
	which  int
	serial int
}

func TestC30(t *testing.T) {
	checkN(t, "programs", "generated programs of 2 to 6 workers that create traces in 1 to 3 categories, write to them and finish them, while others search and resize the collector, and stream from it; every search is checked against all calls that preceded it, overlapped it, or followed it, in logical time: sizes, order, duplicates, newest traces, completeness of finished ones, counts and statistics; streams are complete; non-trivial: a search overlapped the creation of a trace, or traces were dropped", 12000, 200000, func(rt *rapid.T, k *kase) {
		var (
			clock  logicalClock
			col    = trc.NewCollector(trc.CollectorConfig{Source: "src"})
			cats   = []string{"a", "b", "c"}[:rapid.IntRange(1, 3).Draw(rt, "cats")]
			sizes  []resized
			nwork  = rapid.IntRange(2, 6).Draw(rt, "workers")
			progs  [][]workerOp
			serial int
			stacks = rapid.Bool().Draw(rt, "stacks")
		)
		trc.SetTraceStacks(stacks)
		defer trc.SetTraceStacks(true)
		setSize := func(n int) {
			r := resized{size: n}
			r.span = clock.span(func() { col.SetCategorySize(n) })
			sizes = append(sizes, r)
		}
		sizes = append(sizes, resized{size: 1000})
		genSize := rapid.SampledFrom([]int{1, 2, 3, 4, 5, 8, 50})
		if rapid.IntRange(0, 3).Draw(rt, "size?") > 0 {
			setSize(genSize.Draw(rt, "size"))
		}
		for i := 0; i < nwork; i++ {
			var ops []workerOp
			open := 0
			for j, n := 0, rapid.IntRange(1, 14).Draw(rt, "ops"); j < n; j++ {
				op := workerOp{kind: rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3, 3, 4}).Draw(rt, "kind"), cat: rapid.SampledFrom(cats).Draw(rt, "cat"), serial: serial}
				serial++
				if open == 0 && op.kind != 4 {
					op.kind = 0
				}
				if op.kind == 0 {
					open++
				}
				if open > 0 {
					op.which = rapid.IntRange(0, open-1).Draw(rt, "which")
				}
				ops = append(ops, op)
			}
			progs = append(progs, ops)
		}
		nsearch := rapid.IntRange(0, 2).Draw(rt, "searchers")
		searches := rapid.IntRange(1, 6).Draw(rt, "searches")
		var resizes []int
		if rapid.Bool().Draw(rt, "resize?") {
			resizes = rapid.SliceOfN(genSize, 1, 4).Draw(rt, "resizes")
		}
		nstream := rapid.IntRange(0, 2).Draw(rt, "streams")
		k.notef("%d workers %v, %d searchers, sizes %v, resized %v, %d streams", nwork, progs, nsearch, sizes[len(sizes)-1].size, resizes, nstream)

		var subs []*subscription
		for i := 0; i < nstream; i++ {
			subs = append(subs, subscribe(col, bg, trc.Filter{}, make(chan trc.Trace, 4096)))
		}
		defer func() {
			for _, s := range subs {
				s.cancel()
			}
		}()

		var (
			mtx      sync.Mutex
			creation []*made
			results  []found
			start    = make(chan struct{})
			wg       sync.WaitGroup
			running  atomic.Int64
		)
		search := func() {
			var f found
			var err error
			f.span = clock.span(func() { f.res, err = col.Search(bg, &trc.SearchRequest{Limit: 250}) })
			if err != nil {
				panic(err)
			}
			mtx.Lock()
			results = append(results, f)
			mtx.Unlock()
		}
		running.Store(int64(nwork))
		for i := range progs {
			wg.Add(1)
			go func(ops []workerOp) {
				defer wg.Done()
				defer running.Add(-1)
				<-start
				var mine []*made
				var trs []trc.Trace
				for _, op := range ops {
					switch op.kind {
					case 0:
						m := &made{cat: op.cat}
						var tr trc.Trace
						m.span = clock.span(func() { _, tr = col.NewTrace(bg, op.cat) })
						m.id = tr.ID()
						mine, trs = append(mine, m), append(trs, tr)
					case 1, 2:
						m, tr := mine[op.which], trs[op.which]
						if m.finish {
							continue
						}
						what := fmt.Sprint("event ", op.serial)
						m.whats = append(m.whats, what)
						if op.kind == 1 {
							tr.Tracef("event %d", op.serial)
						} else {
							m.errored = true
							tr.LazyErrorf("event %d", op.serial)
						}
					case 3:
						m, tr := mine[op.which], trs[op.which]
						if !m.finish {
							m.finish = true
							tr.Finish()
						}
					case 4:
						runtime.Gosched()
					}
				}
				mtx.Lock()
				creation = append(creation, mine...)
				mtx.Unlock()
			}(progs[i])
		}
		for i := 0; i < nsearch; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := 0; j < searches; j++ {
					search()
					runtime.Gosched()
				}
			}()
		}
		if len(resizes) > 0 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, n := range resizes {
					setSize(n)
					runtime.Gosched()
				}
			}()
		}
		finishes(rt, "concurrent use of a collector", func() { close(start); wg.Wait() })
		search() // the final state

		byID := map[string]*made{}
		byCat := map[string][]*made{}
		for _, m := range creation {
			if byID[m.id] != nil {
				rt.Fatalf("two traces have ID %s", m.id)
			}
			byID[m.id] = m
			byCat[m.cat] = append(byCat[m.cat], m)
		}
		// bounds are the smallest and largest size that may have been in effect
		// at some point of the span.
		bounds := func(s span) (lo, hi int) {
			lo, hi = 1<<30, 0
			for i, r := range sizes {
				if i+1 < len(sizes) && sizes[i+1].span.before(s) {
					continue // replaced before
				}
				if s.before(r.span) {
					continue // not yet
				}
				if r.size < lo {
					lo = r.size
				}
				if r.size > hi {
					hi = r.size
				}
			}
			return lo, hi
		}
		for i, f := range results {
			final := i == len(results)-1
			verifyConcurrentSearch(rt, k, f, final, byID, byCat, bounds)
		}
		for _, s := range subs {
			s.stop(rt)
			close(s.ch)
			have := map[string][]string{}
			n := 0
			for tr := range s.ch {
				evs := tr.Events()
				what := "?"
				switch m := byID[tr.ID()]; {
				case m == nil:
					rt.Fatalf("received an unknown trace")
				case tr.Finished():
					what = "finished"
				case len(evs) > 0:
					what = evs[len(evs)-1].What
				}
				have[tr.ID()] = append(have[tr.ID()], what)
				n++
			}
			if s.stats.Drops != 0 || s.stats.Skips != 0 || s.stats.Sends != n {
				rt.Fatalf("received %d traces, but statistics are %s", n, s.stats)
			}
			for id, m := range byID {
				want := append([]string(nil), m.whats...)
				if m.finish {
					want = append(want, "finished")
				}
				got := have[id]
				if len(got) > 0 && got[0] == "?" { // a new trace may be announced
					got = got[1:]
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					rt.Fatalf("stream has %q for a trace, want %q", got, want)
				}
			}
		}
	})

	check(t, "resizes", "several goroutines resize a collector with traces in generated categories at once, while others create traces in these and new categories; afterwards all existing and new categories have the same size, which is one of those given; non-trivial: at least 2 different sizes", 300, func(rt *rapid.T, k *kase) {
		col := trc.NewCollector(trc.CollectorConfig{Source: "src"})
		col.SetCategorySize(rapid.IntRange(1, 12).Draw(rt, "initial"))
		ncats := rapid.IntRange(1, 12).Draw(rt, "cats")
		sizes := rapid.SliceOfN(rapid.IntRange(1, 12), 2, 5).Draw(rt, "sizes")
		k.notef("%d categories, sizes %v", ncats, sizes)
		distinct := map[int]bool{}
		for _, n := range sizes {
			distinct[n] = true
		}
		k.interesting(len(distinct) >= 2)
		fill := func(cat, n int) {
			for i := 0; i < n; i++ {
				_, tr := col.NewTrace(bg, fmt.Sprint("cat", cat))
				tr.Finish()
			}
		}
		for i := 0; i < ncats; i++ {
			fill(i, rapid.IntRange(0, 14).Draw(rt, "fill"))
		}
		creators := rapid.IntRange(0, 2).Draw(rt, "creators")
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, n := range sizes {
			wg.Add(1)
			go func(n int) {
				defer wg.Done()
				<-start
				col.SetCategorySize(n)
			}(n)
		}
		for c := 0; c < creators; c++ {
			wg.Add(1)
			go func(c int) {
				defer wg.Done()
				<-start
				for i := 0; i <= ncats; i++ {
					fill(i+c*ncats, 1)
				}
			}(c)
		}
		finishes(rt, "concurrent resizes", func() { close(start); wg.Wait() })
		total := (creators+1)*ncats + 2
		for i := 0; i < total; i++ {
			fill(i, 13)
		}
		res, err := col.Search(bg, &trc.SearchRequest{})
		if err != nil || len(res.Stats.Categories) != total {
			rt.Fatalf("%d categories, want %d (%v)", len(res.Stats.Categories), total, err)
		}
		size := res.Stats.Categories["cat0"].TotalCount()
		if !distinct[size] {
			rt.Fatalf("category has %d traces, want one of %v", size, sizes)
		}
		for cat, cs := range res.Stats.Categories {
			if n := cs.TotalCount(); n != size {
				rt.Fatalf("category %s has %d traces, another one has %d", cat, n, size)
			}
		}
	})
}

func verifyConcurrentSearch(rt *rapid.T, k *kase, f found, final bool, byID map[string]*made, byCat map[string][]*made, bounds func(span) (int, int)) {
	rt.Helper()
	res := f.res
	in := map[string]*trc.StaticTrace{}
	counts := map[string]int{}
	for i, st := range res.Traces {
		m := byID[st.TraceID]
		switch {
		case in[st.TraceID] != nil:
			rt.Fatalf("search result has trace %s twice", st.TraceID)
		case m == nil:
			rt.Fatalf("search result has unknown trace %s", st.TraceID)
		case f.span.before(m.span):
			rt.Fatalf("search result has trace %s, which was created later", st.TraceID)
		case st.TraceCategory != m.cat:
			rt.Fatalf("trace has category %q, want %q", st.TraceCategory, m.cat)
		}
		in[st.TraceID] = st
		counts[m.cat]++
		if i > 0 {
			prev := res.Traces[i-1]
			if prev.TraceStarted.Before(st.TraceStarted) || (prev.TraceStarted.Equal(st.TraceStarted) && prev.TraceID < st.TraceID) {
				rt.Fatalf("search result isn't sorted: %s", ids(res.Traces))
			}
		}
		var whats []string
		for _, ev := range st.TraceEvents {
			whats = append(whats, ev.What)
		}
		if len(whats) > len(m.whats) || !reflect.DeepEqual(whats, append([]string(nil), m.whats[:len(whats)]...)) {
			rt.Fatalf("trace has events %q, want %q", whats, m.whats)
		}
		if (st.TraceFinished || final) && len(whats) != len(m.whats) {
			rt.Fatalf("trace is finished=%v with events %q, want %q", st.TraceFinished, whats, m.whats)
		}
		if st.TraceFinished && st.TraceErrored != m.errored {
			rt.Fatalf("finished trace has errored=%v, want %v", st.TraceErrored, m.errored)
		}
		if final && st.TraceFinished != m.finish {
			rt.Fatalf("trace is finished=%v, want %v", st.TraceFinished, m.finish)
		}
		if st.TraceFinished && !m.finish {
			rt.Fatalf("trace is finished, but it wasn't")
		}
	}
	if res.TotalCount != len(res.Traces) || res.MatchCount != len(res.Traces) {
		rt.Fatalf("%d traces, but total count %d, match count %d", len(res.Traces), res.TotalCount, res.MatchCount)
	}
	statTotal := 0
	for _, cat := range res.Stats.Categories {
		n := cat.ActiveCount + cat.ErroredCount
		if len(cat.BucketCounts) > 0 {
			n += cat.BucketCounts[0]
		}
		if n != counts[cat.Category] {
			rt.Fatalf("statistics of %q have %d traces, want %d", cat.Category, n, counts[cat.Category])
		}
		statTotal += n
	}
	if statTotal != res.TotalCount {
		rt.Fatalf("statistics have %d traces, want %d", statTotal, res.TotalCount)
	}

	dropped := false
	for cat, ms := range byCat {
		if _, hi := bounds(f.span); counts[cat] > hi {
			rt.Fatalf("category %q has %d traces, want at most %d", cat, counts[cat], hi)
		}
		sort.Slice(ms, func(i, j int) bool { return ms[i].span.begin < ms[j].span.begin })
		for _, x := range ms {
			if overlap := !x.span.before(f.span) && !f.span.before(x.span); overlap {
				k.interesting(true)
				k.label(true, "search overlaps creation")
			}
			if in[x.id] != nil || !x.span.before(f.span) {
				continue
			}
			// x was created before the search, and isn't in the result.
			dropped = true
			newer := 0
			for _, y := range ms {
				if y != x && !y.span.before(x.span) && !f.span.before(y.span) {
					newer++
				}
				if y.span.before(x.span) && in[y.id] != nil {
					rt.Fatalf("category %q has trace %s, but not the newer %s", cat, y.id, x.id)
				}
			}
			if lo, _ := bounds(span{x.span.begin, f.span.end}); newer < lo {
				rt.Fatalf("trace %s is missing from category %q, although at most %d traces are newer, and its size is at least %d", x.id, cat, newer, lo)
			}
		}
		if final {
			lo, _ := bounds(span{0, f.span.end})
			if lo > len(ms) {
				lo = len(ms)
			}
			if counts[cat] < lo {
				rt.Fatalf("finally, category %q has %d traces of %d, want at least %d", cat, counts[cat], len(ms), lo)
			}
		}
	}
	k.interesting(dropped)
	k.label(dropped, "dropped traces")
}
