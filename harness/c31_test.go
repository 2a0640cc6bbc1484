package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"pgregory.net/rapid"
)

// ---- C31 ------------------------------------------------------------------

// tracker knows which objects haven't been garbage collected.
type tracker struct {
	mtx  sync.Mutex
	live map[string]bool
}

func (tk *tracker) begin(name string) {
	tk.mtx.Lock()
	defer tk.mtx.Unlock()
	if tk.live == nil {
		tk.live = map[string]bool{}
	}
	tk.live[name] = true
}

func (tk *tracker) end(name string) {
	tk.mtx.Lock()
	defer tk.mtx.Unlock()
	delete(tk.live, name)
}

func (tk *tracker) trace(name string, tr trc.Trace) {
	tk.begin(name)
	runtime.SetFinalizer(tr, func(trc.Trace) { tk.end(name) })
}

func (tk *tracker) response(name string, res *trc.SearchResponse) {
	tk.begin(name)
	runtime.SetFinalizer(res, func(*trc.SearchResponse) { tk.end(name) })
}

// blob is an arg of an event.
type blob struct {
	name string
	data []byte
}

func (b *blob) String() string { return b.name }

func (tk *tracker) blob(name string) *blob {
	b := &blob{name: name, data: make([]byte, 100)}
	tk.begin(name)
	runtime.SetFinalizer(b, func(*blob) { tk.end(name) })
	return b
}

// garbage returns the objects which are kept, but shouldn't be.
func (tk *tracker) garbage(keep func(string) bool) []string {
	tk.mtx.Lock()
	defer tk.mtx.Unlock()
	var res []string
	for _, name := range sortedKeys(tk.live) {
		if !keep(name) {
			res = append(res, name)
		}
	}
	return res
}

// collected says if all objects are collected, other than those to keep.
func (tk *tracker) collected(keep func(string) bool) bool {
	return eventually(waitLimit, func() bool {
		runtime.GC()
		return len(tk.garbage(keep)) == 0
	})
}

// transparent is a decorator of the harness.
type transparent struct{ trc.Trace }

func (tr *transparent) Free() {
	if f, ok := tr.Trace.(interface{ Free() }); ok {
		f.Free()
	}
}

// trcGoroutines returns the stacks of goroutines that run, or were started by,
// trc code.
func trcGoroutines() []string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var res []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "github.com/peterbourgon/trc") {
			res = append(res, g)
		}
	}
	return res
}

// bodyTransport counts response bodies which aren't closed.
type bodyTransport struct {
	http.RoundTripper
	open atomic.Int64
	seen atomic.Int64
}

func (bt *bodyTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	res, err := bt.RoundTripper.RoundTrip(r)
	if err == nil {
		bt.open.Add(1)
		bt.seen.Add(1)
		res.Body = &countedBody{ReadCloser: res.Body, close: sync.OnceFunc(func() { bt.open.Add(-1) })}
	}
	return res, err
}

type countedBody struct {
	io.ReadCloser
	close func()
}

func (cb *countedBody) Close() error {
	cb.close()
	return cb.ReadCloser.Close()
}

func TestC31(t *testing.T) {
	check(t, "memory", "histories of new traces, events with args, finishes, resizes, searches and subscriptions on small collectors, with or without decorators; afterwards all traces that aren't among the newest, their args, the responses of all searches, and what was in the channels of former subscribers, are garbage collected; non-trivial: at least 2 traces were dropped", 300, func(rt *rapid.T, k *kase) {
		tk := &tracker{}
		var decorators []trc.DecoratorFunc
		layers := 0
		layer := func(tr trc.Trace) {
			layers++
			tk.trace(fmt.Sprintf("%s layer %d", tr.ID(), layers), tr)
		}
		for i, n := 0, rapid.IntRange(0, 2).Draw(rt, "decorators"); i < n; i++ {
			var d trc.DecoratorFunc
			switch rapid.IntRange(0, 2).Draw(rt, "decorator") {
			case 0:
				d = trc.LogDecorator(io.Discard)
			case 1:
				d = trc.LoggerDecorator(log.New(io.Discard, "", 0))
			default:
				d = func(tr trc.Trace) trc.Trace { return &transparent{tr} }
			}
			decorators = append(decorators, func(tr trc.Trace) trc.Trace { tr = d(tr); layer(tr); return tr })
		}
		size := rapid.IntRange(1, 6).Draw(rt, "size")
		col := trc.NewCollector(trc.CollectorConfig{
			Source:     "src",
			Decorators: decorators,
			NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
				core := func(tr trc.Trace) trc.Trace { layer(tr); return tr }
				outer := func(tr trc.Trace) trc.Trace { layer(tr); return tr }
				return trc.New(ctx, source, category, append(append([]trc.DecoratorFunc{core}, ds...), outer)...)
			},
		})
		col.SetCategorySize(size)
		retained := map[string][]string{} // IDs by category, oldest first
		dropped, names := 0, 0
		name := func(format string, args ...any) string {
			names++
			return fmt.Sprintf(format, args...) + fmt.Sprintf(" %d", names)
		}
		trim := func(cat string) {
			for len(retained[cat]) > size {
				retained[cat] = retained[cat][1:]
				dropped++
			}
		}

		history := func() { // in a goroutine of its own, so that its stack goes away
			var active []trc.Trace
			type sub struct {
				cancel context.CancelFunc
				done   chan struct{}
			}
			var subs []sub
			unsubscribe := func(i int) {
				subs[i].cancel()
				<-subs[i].done
				subs = append(subs[:i], subs[i+1:]...)
			}
			defer func() {
				for len(subs) > 0 {
					unsubscribe(0)
				}
			}()
			for i, n := 0, rapid.IntRange(1, 40).Draw(rt, "ops"); i < n; i++ {
				switch op := rapid.IntRange(0, 14).Draw(rt, "op"); {
				case op <= 4 || op <= 9 && len(active) == 0:
					cat := rapid.SampledFrom([]string{"a", "b", "c"}).Draw(rt, "cat")
					_, tr := col.NewTrace(bg, cat)
					retained[cat] = append(retained[cat], tr.ID())
					trim(cat)
					active = append(active, tr)
					k.notef("new %s", cat)
				case op <= 7:
					tr := active[rapid.IntRange(0, len(active)-1).Draw(rt, "which")]
					if rapid.IntRange(0, 3).Draw(rt, "prefix") == 0 {
						ctx, _ := trc.Put(bg, tr)
						_, tr = trc.Prefix(ctx, "%v", tk.blob(name("%s prefix", tr.ID())))
					}
					for j, n := 0, rapid.SampledFrom([]int{1, 2, 5, 30}).Draw(rt, "events"); j < n; j++ {
						call{format: "%v", args: []any{tk.blob(name("%s arg", tr.ID()))}, lazy: (i+j)%2 == 0, iserr: j%3 == 2}.apply(tr)
					}
					k.notef("events")
				case op <= 9:
					j := rapid.IntRange(0, len(active)-1).Draw(rt, "which")
					if rapid.Bool().Draw(rt, "finish") {
						active[j].Finish()
					}
					active = append(active[:j], active[j+1:]...)
					k.notef("finish")
				case op == 10:
					size = rapid.IntRange(1, 6).Draw(rt, "size")
					col.SetCategorySize(size)
					for cat := range retained {
						trim(cat)
					}
					k.notef("resize %d", size)
				case op == 11:
					res, err := col.Search(bg, &trc.SearchRequest{Limit: 250, Filter: trc.Filter{Query: rapid.SampledFrom([]string{"", "arg", "nothing"}).Draw(rt, "query")}})
					must(err)
					for _, st := range res.Traces {
						tk.trace(name("result"), st)
					}
					tk.response(name("response"), res)
					k.notef("search")
				case op <= 13:
					ctx, cancel := context.WithCancel(bg)
					s := sub{cancel, make(chan struct{})}
					ch := make(chan trc.Trace, rapid.SampledFrom([]int{1, 10, 100}).Draw(rt, "cap"))
					first := &trc.StaticTrace{TraceID: "first"}
					tk.trace(name("in the channel"), first)
					ch <- first
					go func() {
						defer close(s.done)
						col.Stream(ctx, trc.Filter{}, ch)
					}()
					if !eventually(waitLimit, func() bool { _, err := col.StreamStats(bg, ch); return err == nil }) {
						rt.Fatalf("not subscribed")
					}
					subs = append(subs, s)
					k.notef("subscribe")
				default:
					if len(subs) > 0 {
						unsubscribe(rapid.IntRange(0, len(subs)-1).Draw(rt, "sub"))
						k.notef("unsubscribe")
					}
				}
			}
		}
		type result struct{ x any }
		done := make(chan result)
		go func() {
			var r result
			defer func() {
				r.x = recover()
				done <- r
			}()
			history()
		}()
		if r := <-done; r.x != nil {
			panic(r.x)
		}
		k.interesting(dropped >= 2)
		ids := map[string]bool{}
		for _, list := range retained {
			for _, id := range list {
				ids[id] = true
			}
		}
		keep := func(name string) bool { id, _, _ := strings.Cut(name, " "); return ids[id] }
		if !tk.collected(keep) {
			rt.Fatalf("after %d drops, with size %d, these weren't garbage collected: %q", dropped, size, tk.garbage(keep))
		}
		runtime.KeepAlive(col)
	})

	check(t, "calls", "generated searches (of collectors, servers, and several of them, some failing or canceled) and streams (local and remote, with the stream client and others, canceled before or after they're established, rejected, or with failing servers); when all calls have returned, by themselves or because they were canceled, no goroutine of trc is left, all response bodies are closed, and the broker has no subscribers; non-trivial: at least 2 calls", 120, func(rt *rapid.T, k *kase) {
		col := trc.NewCollector(trc.CollectorConfig{Source: "src"})
		for i := 0; i < 5; i++ {
			_, tr := col.NewTrace(bg, "cat")
			tr.Tracef("%s", strings.Repeat("x", rapid.SampledFrom([]int{1, 100, 10000}).Draw(rt, "length")))
		}
		spy := &spyStreamer{Streamer: col}
		server := &trcweb.TraceServer{Collector: col, Streamer: spy}
		status, cut := rapid.SampledFrom([]int{400, 404, 500, 503}).Draw(rt, "status"), rapid.IntRange(0, 3000).Draw(rt, "cut")
		srv, uri := uniqueServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			switch {
			case strings.HasSuffix(r.URL.Path, "/status"):
				http.Error(w, strings.Repeat("bad ", 1000), status)
			case strings.HasSuffix(r.URL.Path, "/silent"):
				io.Copy(io.Discard, r.Body) // otherwise, net/http wouldn't notice that the client is gone
				<-r.Context().Done()
			case strings.HasSuffix(r.URL.Path, "/page"):
				w.Header().Set("content-type", "text/html")
				io.WriteString(w, "<html>")
				w.(http.Flusher).Flush()
				<-r.Context().Done()
			case strings.HasSuffix(r.URL.Path, "/garbage"):
				w.Header().Set("content-type", "text/event-stream")
				io.WriteString(w, "event: trace\ndata: garbage\n\n")
				w.(http.Flusher).Flush()
				<-r.Context().Done()
			case strings.HasSuffix(r.URL.Path, "/cut"):
				rec := httptest.NewRecorder()
				server.ServeHTTP(rec, r)
				body := rec.Body.Bytes()
				w.Header().Set("content-length", fmt.Sprint(len(body)))
				w.Write(body[:min(cut, len(body))])
			default:
				server.ServeHTTP(w, r)
			}
		}))
		transport := &http.Transport{}
		bodies := &bodyTransport{RoundTripper: transport}
		client := &http.Client{Transport: bodies}
		custom := rapid.Bool().Draw(rt, "custom client")
		streamClient := func(uri string) *trcweb.StreamClient {
			if custom {
				return &trcweb.StreamClient{HTTPClient: client, URI: uri}
			}
			return trcweb.NewStreamClient(uri)
		}

		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		forever, cancelForever := context.WithCancel(bg) // only canceled when this case is over
		defer cancelForever()
		var wg sync.WaitGroup
		start := func(f func(context.Context)) context.CancelFunc {
			ctx, cancel := context.WithCancel(ctx)
			wg.Add(1)
			go func() { defer wg.Done(); f(ctx) }()
			return cancel
		}
		calls, streams := 0, 0
		for i, n := 0, rapid.IntRange(1, 6).Draw(rt, "calls"); i < n; i++ {
			calls++
			switch op := rapid.IntRange(0, 8).Draw(rt, "call"); op {
			case 0, 1: // searches
				var ms trc.MultiSearcher
				waits := false
				for j, n := 0, rapid.IntRange(1, 4).Draw(rt, "searchers"); j < n; j++ {
					switch rapid.IntRange(0, 5).Draw(rt, "searcher") {
					case 0:
						ms = append(ms, col)
					case 1:
						ms = append(ms, stubSearcher(func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) {
							return nil, errors.New("failed")
						}))
					case 2:
						ms = append(ms, trcweb.NewSearchClient(client, uri+"/status"))
					case 3:
						ms = append(ms, trcweb.NewSearchClient(client, uri+"/cut"))
					case 4:
						waits = true
						ms = append(ms, stubSearcher(func(ctx context.Context, _ *trc.SearchRequest) (*trc.SearchResponse, error) {
							<-ctx.Done()
							return nil, ctx.Err()
						}))
					default:
						ms = append(ms, trcweb.NewSearchClient(client, uri))
					}
				}
				// Unless it's canceled, or waits for that, it returns by itself.
				never := !waits && rapid.Bool().Draw(rt, "never canceled")
				k.notef("search of %d, never canceled: %v", len(ms), never)
				stop := start(func(ctx context.Context) {
					if never {
						ctx = forever
					}
					ms.Search(ctx, &trc.SearchRequest{Limit: 5})
				})
				if rapid.Bool().Draw(rt, "stop") {
					stop()
				}
				defer stop()
			case 2: // local stream
				k.notef("local stream")
				stop := start(func(ctx context.Context) { col.Stream(ctx, trc.Filter{}, make(chan trc.Trace)) })
				if rapid.Bool().Draw(rt, "stop") {
					stop()
				}
				defer stop()
			case 3: // rejected stream
				k.notef("rejected stream")
				defer start(func(ctx context.Context) {
					if status < 500 { // returns by itself
						ctx = forever
					}
					streamClient(uri+"/status").Stream(ctx, trc.Filter{}, make(chan trc.Trace))
				})()
			case 4: // stream client returns by itself
				path := rapid.SampledFrom([]string{"/garbage", "/page"}).Draw(rt, "path")
				k.notef("garbage stream %s", path)
				defer start(func(context.Context) {
					streamClient(uri+path).Stream(forever, trc.Filter{}, make(chan trc.Trace))
				})()
			case 5: // stream client with nobody receiving
				k.notef("unread stream")
				streams++
				defer start(func(ctx context.Context) {
					streamClient(uri).Stream(ctx, trc.Filter{}, make(chan trc.Trace))
				})()
			case 6: // stream with another client
				k.notef("raw stream")
				streams++
				defer start(func(ctx context.Context) {
					rs := rawStream(uri, "text/event-stream")
					<-ctx.Done()
					rs.cancel()
					<-rs.done
				})()
			case 7: // no answer
				k.notef("no answer")
				ended := start(func(ctx context.Context) {
					if i%2 == 0 {
						trcweb.NewSearchClient(client, uri+"/silent").Search(ctx, &trc.SearchRequest{})
						return
					}
					streamClient(uri+"/silent").Stream(ctx, trc.Filter{}, make(chan trc.Trace))
				})
				defer ended()
			default: // stream via a recorder, with a canceled context
				k.notef("canceled stream")
				stop := start(func(ctx context.Context) {
					server.ServeHTTP(httptest.NewRecorder(), newRequest(ctx, "GET", "/", "", map[string]string{"Accept": "text/event-stream"}, nil))
				})
				stop()
			}
		}
		eventually(time.Second, func() bool { // just so that streams are established
			spy.mtx.Lock()
			defer spy.mtx.Unlock()
			return len(spy.chans) >= streams
		})
		_, tr := col.NewTrace(bg, "cat")
		tr.Finish()
		k.interesting(calls >= 2)
		cancel()
		finishes(rt, "canceled calls", wg.Wait)
		closeServer(srv)
		transport.CloseIdleConnections()
		http.DefaultClient.CloseIdleConnections()
		if !eventually(waitLimit, func() bool { return len(trcGoroutines()) == 0 }) {
			rt.Fatalf("goroutines are left:\n%s", strings.Join(trcGoroutines(), "\n\n"))
		}
		if n := bodies.open.Load(); n > 0 {
			rt.Fatalf("%d response bodies of %d aren't closed", n, bodies.seen.Load())
		}
		spy.mtx.Lock()
		defer spy.mtx.Unlock()
		for _, ch := range spy.chans {
			if stats, err := col.StreamStats(bg, ch); err == nil {
				rt.Fatalf("still subscribed: %s", stats)
			}
		}
	})
}
