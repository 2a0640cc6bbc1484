#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because one JSON object per line is hard to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "A trace records every event, in order, with the right text and error flag",
     "Events of an active trace that's below its event limit are exactly the calls made to Tracef, LazyTracef, Errorf and LazyErrorf, oldest first, each with the text that fmt.Sprintf gives for its format and args, and IsError only for the error methods, no matter how often or when the trace is read, or which decorators and prefixes wrap it. Timestamps never go backwards, and lie between the creation of the trace and the time of the read. The text of a normal event is fixed when the event is made, the text of a lazy event is fixed when it's first read, and a trace is errored as soon as, and only if, an error method was called.",
     ["inputs", "histories"], "for every sequence of event calls with any formats and args, and every interleaving of reads",
     "Tests use a handful of fixed formats and a single read at the end; neither unusual formats or args, nor reads between writes, nor mutable lazy args are tried.",
     ["trace_core.go", "helpers.go", "decorators.go"], [("newCoreEvent / stringer", "trace_core.go"), ("snapshotEvents", "trace_core.go")], ["Trace.Events", "Trace.Errored"])
prop("C02", "A finished trace is frozen",
     "After Finish returns, nothing changes what a trace reports -- its events (text, time, stack, error flag), errored status, finished status and duration are the same on every later read -- regardless of further event calls, Finish calls or changes of its event limit made through any handle to it (the trace itself, one from a context, decorated, prefixed, or in a region). This also holds when those calls happen concurrently with Finish, or after the collector has dropped the trace, except that a dropped trace may lose its events, and then never shows any other ones. The duration of a finished trace is the time from its creation to its Finish, and the duration of an active trace is the time since its creation.",
     ["histories", "schedules"], "for every history of calls before and after Finish, via any handle, on any number of goroutines",
     "Tests call Finish once and check a flag; they don't make late calls via derived handles, after eviction, or concurrently.",
     ["trace_core.go", "collector.go", "helpers.go", "decorators.go"], [("coreTrace.finished checks", "trace_core.go"), ("coreTrace.Free", "trace_core.go")], ["Trace.Events", "Trace.Duration", "Trace.Errored", "Trace.Finished"])
prop("C03", "The number of events kept by a trace is bounded, and truncation is reported",
     "A trace never reports more events than its limit, which is the global limit (default 1000, clamped to 10..10000) when the trace was created, or the (clamped) value given to SetMaxEvents for that trace (events it already has aren't removed when that's lower). If more events are made, then it keeps the first ones up to the limit (except that the oldest one makes place for a marker) followed by a single non-error marker event '(truncated event count N)', where N is exactly the number of events that came after those and weren't kept. Errors among truncated events still mark the trace as errored, and a change of the global limit doesn't affect existing traces.",
     ["inputs", "configurations", "histories"], "for every limit, and every number and kind of events",
     "Tests check one limit and one overflow; not clamping, exact counts, errors past the limit, or limits that change over time.",
     ["trace_core.go", "helpers.go"], [("traceMaxEvents", "trace_core.go"), ("coreTrace.EventsDetail", "trace_core.go"), ("SetMaxEvents", "helpers.go")], ["Trace.Events"])
prop("C04", "A trace can be used by any number of goroutines at once",
     "When several goroutines add events to one trace while others read it, no event is lost, duplicated or corrupted, the events of each goroutine stay in order, and every read is a prefix of every later read. All readers of a lazy event see the same text. There are no data races, panics or deadlocks, with or without decorators, prefixes, a collector and stream subscribers.",
     ["schedules"], "for all interleavings of writers, readers and Finish on one trace",
     "Existing tests use a trace from a single goroutine.",
     ["trace_core.go", "decorators.go", "helpers.go"], [("coreTrace.mtx", "trace_core.go"), ("stringer.String CAS", "trace_core.go")], ["Trace.Events", "race detector"])
prop("C05", "A trace has a unique ID, and its identity never changes",
     "Every trace has an ID that's different from that of every other trace in the process, even when they're created concurrently, and its ID, source, category and start time are the same on every read, for the entire life of the process. Its source and category are those it was created with (the collector's source, for traces made by a collector), and the IDs of traces made one after the other sort in creation order to the millisecond. This holds through every handle, decorator and derived context, and also after the trace was finished, dropped by its collector, and other traces were created.",
     ["schedules", "histories"], "for all traces made by any number of goroutines, with any amount of eviction and re-use",
     "Tests look at single traces right after creation, before any recycling.",
     ["trace_core.go", "collector.go"], [("newCoreTrace ULID", "trace_core.go"), ("coreTrace.Free", "trace_core.go")], ["Trace.ID", "Trace.Source", "Trace.Category", "Trace.Started"])
prop("C06", "Recycling memory never leaks data from one trace to another",
     "What was read from the library -- event slices, search results, streamed traces -- never changes afterwards, and a live trace never shows data of a different trace, whatever is created, written, finished, evicted or resized in the meantime. In particular, releasing the memory of dropped traces for re-use by new ones is never observable.",
     ["histories"], "for every history of creates, writes, finishes, searches, streams, evictions and resizes",
     "Tests never evict traces while holding on to previous results, which is what makes recycling observable.",
     ["trace_core.go", "collector.go", "trace_static.go"], [("coreEventPool, stringerPool", "trace_core.go"), ("maybeFree", "collector.go"), ("NewSearchTrace", "trace_static.go")], ["Trace.Events", "SearchResponse", "streamed traces"])
prop("C07", "A collector keeps exactly the newest N traces of every category",
     "At any time a collector holds, for each category separately, exactly the last N traces created in that category, whether active or finished, where N is the category size (default 1000). Changing the size takes effect for every existing and future category at once, drops the oldest traces if a category is too large, and non-positive sizes change nothing. A trace that supports being freed is freed exactly once, when it's dropped, and never before.",
     ["histories", "configurations"], "for every history of creations in any categories and of size changes",
     "Ring buffer tests use a few sizes and one buffer; not histories of resizes with several categories, or the freeing of dropped traces.",
     ["collector.go", "internal/trcringbuf/ringbuffer.go"], [("RingBuffers.Resize", "internal/trcringbuf/ringbuffer.go"), ("RingBuffer.Add", "internal/trcringbuf/ringbuffer.go"), ("Collector.SetCategorySize", "collector.go")], ["Collector.Search", "Free calls"])
prop("C08", "A search returns exactly the newest matching traces",
     "A collector search considers every trace in the collector, and returns the newest traces that match the filter, up to the limit (1 to 250, default 10), newest first by start time, then by descending ID. Each is a faithful and self-consistent copy of its trace, with stacks cut to the requested depth (0: no change, negative: none), and searching never modifies the traces themselves. TotalCount is the number of traces in the collector, and MatchCount counts matching traces, of which no more than the limit are counted per category.",
     ["inputs", "histories", "schedules"], "for every collector content, request, and modification of traces while they're read",
     "Tests search small collectors with two or three filters; not limits across categories, ties, stack depths, or traces being modified during the search.",
     ["collector.go", "trace_static.go", "internal/trcringbuf/ringbuffer.go"], [("Collector.Search", "collector.go"), ("staticTracesNewestFirst", "trace_static.go"), ("TrimStacks", "trace_static.go")], ["SearchResponse"])
prop("C09", "A filter allows a trace if and only if all of its conditions hold",
     "A trace is allowed if and only if each condition that's set in the filter holds: its source and ID are among the given ones, its category is equal, it's active or finished, successful or errored, it's finished with at least the minimum duration, and the query matches the text of an event, or the function or compact file:line of a frame of its stack. An invalid query is reported by Normalize and then ignored; the verdict depends only on the current fields of the filter, however it was used, copied, or sent as JSON before. The string form of a filter shows all of its conditions and their values.",
     ["inputs", "histories"], "for every filter, trace, and history of uses of the filter",
     "Tests apply a few single conditions; not combinations, boundaries, stack matches, invalid queries, or filters that are re-used.",
     ["filter.go", "trace.go"], [("Filter.Allow", "filter.go"), ("initializeQueryRegexp", "filter.go")], ["Filter.Allow", "Filter.Normalize", "Filter.String"])
prop("C10", "Search requests are normalized to sane values",
     "After normalization, and in every search response, the bucketing of a request is sorted ascending and starts with 0, and otherwise has exactly the given non-negative buckets (the default ones, if none were given); the limit is in 1..250, with 10 for unset or negative and 250 for larger ones; and an invalid query is removed and reported as a problem. Normalizing is idempotent, also over JSON, doesn't touch other fields of the request, and never modifies the default bucketing.",
     ["inputs"], "for every request",
     "Tests normalize one or two requests; not negative, duplicate or unsorted buckets, or extreme limits.",
     ["search_types.go", "filter.go"], [("SearchRequest.Normalize", "search_types.go")], ["SearchRequest.Normalize", "SearchResponse.Request"])
prop("C11", "Search statistics count every trace, once, in the right place",
     "The statistics of a search cover every trace in the collector, regardless of filter and limit: each category has the number of active traces, of errored finished traces, and for each bucket of successful finished traces with at least that duration, as well as the number of events, and the oldest and newest start times. The total of a category is the number of its traces, the overall category is the sum over all categories, and categories are listed sorted by name with the overall one last. Trace and event rates are counts divided by the time since the oldest trace.",
     ["inputs"], "for every set of traces, bucketing and request",
     "Tests observe a few traces with default buckets; not durations on bucket boundaries, rates, or sums over categories.",
     ["search_stats.go", "collector.go"], [("SearchStats.Observe", "search_stats.go"), ("Overall / AllCategories", "search_stats.go")], ["SearchResponse.Stats"])
prop("C12", "Merging statistics is the same as observing everything at once",
     "Merging statistics over disjoint sets of traces, in any order and grouping, including empty statistics and ones received as JSON, gives the same counts, buckets, and oldest and newest times for every category and overall as observing all of the traces in one. Rates of merged categories are the sums of the rates of their parts. Merging never modifies the statistics that are merged in, neither at that time, nor by later merges into the same destination.",
     ["inputs", "histories"], "for every partition of traces, and every order and grouping of merges",
     "One test merges two stats once.",
     ["search_stats.go"], [("SearchStats.Merge", "search_stats.go"), ("CategoryStats.Merge", "search_stats.go")], ["SearchStats"])
prop("C13", "A multi search is the union of its searches, and survives failing ones",
     "The response of a MultiSearcher has the newest traces over all of its searchers, up to the limit, the sums of their total and match counts, all of their sources sorted and without duplicates, and their merged statistics, independent of the order in which they respond. Each searcher that fails is reported as a problem of the response, next to problems reported by the searchers themselves, and results of the other searchers are unaffected. Responses of the individual searchers aren't modified, and searchers may themselves be multi searchers or remote.",
     ["inputs", "schedules", "fault_sequences"], "for every set of searchers, order of responses, and set of failures",
     "One test merges a few working collectors.",
     ["search_types.go", "search_stats.go"], [("MultiSearcher.Search", "search_types.go")], ["SearchResponse"])
prop("C14", "A remote search gives the same result as a local one",
     "Searching via a search client and a trace server over HTTP gives the same traces, counts, sources, statistics, normalized request and problems as calling the server's searcher directly. If the request can't be made, or the response isn't a 200 with a complete search response, then the client returns an error rather than a partial or empty result.",
     ["inputs", "fault_sequences"], "for every collector content, request, and failure of connection or server",
     "One end-to-end test searches once, without failures or unusual text.",
     ["trcweb/trace_server.go", "search_types.go", "trace_static.go"], [("TraceServer.handleSearch", "trcweb/trace_server.go"), ("SearchClient.Search", "trcweb/trace_server.go")], ["SearchClient.Search"])
prop("C15", "The trace server answers every request, and never panics",
     "Whatever the method, path, query parameters, headers and body of a request, and whether or not the search behind it succeeds, the trace server gives a complete response: event streams for requests that accept text/event-stream, HTML for ones that accept text/html (unless the json parameter is given), and JSON for all others. Search requests with a JSON body that isn't a valid search request, or is over 1MB, and stream requests with an invalid query, get a 400; all others get a 200, with failures of the search in its problems. This holds for concurrent requests, and for trace servers made as struct literals.",
     ["inputs", "fault_sequences", "schedules"], "for every request, and every outcome of the search",
     "One end-to-end test makes a few well-formed requests.",
     ["trcweb/trace_server.go", "trcweb/render.go", "trcweb/util.go"], [("ServeHTTP / Categorize", "trcweb/trace_server.go"), ("renderResponse", "trcweb/render.go")], ["HTTP responses"])
prop("C16", "Requests in URLs mean what they say",
     "A search or stream request made with URL parameters -- source, id, category, active, finished, min, success, errored, q, and for searches n, stack and b -- has exactly the filter, limit, stack depth and bucketing which those parameters describe; values that don't parse count as absent, and n is limited to 1..250, default 10. The filter given to a stream client arrives at the server's streamer unchanged, and so does a request given to a search client.",
     ["inputs"], "for every set of parameters and every filter",
     "No test covers URL parsing or encoding, except for one simple filter end-to-end.",
     ["trcweb/util.go", "trcweb/trace_server.go"], [("parseFilter / encodeFilter", "trcweb/util.go"), ("parseBucketing / parseRange", "trcweb/util.go")], ["Searcher and Streamer calls", "JSON response .request"])
prop("C17", "The web page shows the search result, and untrusted text can't break it",
     "The HTML page for a search has exactly the traces of the response, in order, with their IDs, sources, categories, durations, status, and all events with their times, text, error flags and stack frames (with links, if a source link function is set), and a row with the right counts, percentages, ages and rates for every category and overall; every link on it leads to the request it's labeled with, and its form keeps the query, limit, category and status conditions of the request, and offers the sources of the response. Text from traces, requests, sources and problems is shown verbatim, and never changes the structure of the page or the code in its scripts and event handlers.",
     ["inputs"], "for every response and request, including text that looks like HTML, JavaScript or URLs",
     "No test renders the page with unusual text, or parses it.",
     ["trcweb/assets/traces.html", "trcweb/render.go"], [("templateFuncs", "trcweb/render.go"), ("traces.html", "trcweb/assets/traces.html")], ["HTML responses"])
prop("C18", "Every published trace is sent, dropped or skipped, and counted as such, once",
     "For every trace published to a broker, each subscriber either is sent a copy, if the filter allows that copy and its channel has room; or it's counted as dropped, if the filter allows it but the channel is full; or it's counted as skipped. A subscriber's copies arrive in publish order, its statistics are exactly the numbers of traces sent, dropped and skipped since it subscribed, and subscribers don't affect each other. Publishing never blocks, however slow or absent the receivers are.",
     ["histories", "schedules"], "for every history of subscriptions, publishes and receives, with any filters and channel capacities",
     "One test publishes a few traces to one subscriber.",
     ["broker.go"], [("Broker.Publish", "broker.go"), ("Broker.Stream", "broker.go")], ["subscriber channels", "StreamStats"])
prop("C19", "Subscribers see every step of a trace, as a faithful snapshot",
     "A subscriber without a filter gets one snapshot when a collector trace is created, one for each event that's added, and one when it's finished, in that order. A snapshot of an active trace has just the most recent event, and that of a finished one has all of the events; all other fields are those of the trace at the time, and events have no stacks. The same holds for every implementation of the Trace interface, and making a snapshot never modifies, or panics on, the trace it's made from, even if that's modified at the same time; when several goroutines use a trace, a snapshot is never older than one sent before.",
     ["histories", "inputs", "schedules"], "for every history of a trace, every implementation, and every modification during the snapshot",
     "Tests look at a couple of snapshots of core traces.",
     ["trace_static.go", "decorators.go", "broker.go"], [("NewStreamTrace", "trace_static.go"), ("publishDecorator", "decorators.go")], ["subscriber channels", "NewStreamTrace"])
prop("C20", "Subscriptions begin, end and are reported exactly as requested",
     "A channel is subscribed from when Stream is called until its context is canceled; Stream then returns its final statistics and the context's error, and nothing is sent to the channel afterwards. Stream returns an error without affecting anything if the channel is already subscribed, and the channel can be subscribed again after it ended, with new statistics and filter. StreamStats returns the current statistics of an active subscription, and an error for any other channel.",
     ["histories", "schedules"], "for every history of subscribing, canceling and publishing, with any number of channels at once",
     "One test subscribes once.",
     ["broker.go", "collector.go"], [("Broker.Stream / StreamStats", "broker.go")], ["Stream", "StreamStats"])
prop("C21", "Streaming over HTTP delivers the same traces as a local subscription",
     "A stream client receives, in order and with the same content, exactly what a local subscription with the same filter gets from when the server has subscribed, as long as no buffer overflows, apart from snapshots of the server's own trace for the stream request. The server sends an init event with the filter and send buffer when the stream begins, and statistics at the requested interval. When the client's context is canceled, at whatever point, the client's Stream returns without an error, and the server ends the subscription.",
     ["histories", "inputs", "schedules"], "for every history of traces, and every filter",
     "One end-to-end test streams a single trace.",
     ["trcweb/trace_server.go", "broker.go"], [("TraceServer.handleStream", "trcweb/trace_server.go"), ("StreamClient.Stream", "trcweb/trace_server.go")], ["StreamClient.Stream", "OnRead"])
prop("C22", "The trace in a context is the one that was put there",
     "Get and MaybeGet return the trace most recently put into that context or the nearest parent that has one, through every kind of derived context; without any, MaybeGet returns false, and Get returns a new, working orphan trace, with the category '(orphan)', that isn't in any context. Creating a trace in a collector with a context that already has a trace adds the event '(+ category)' to that trace and returns the same context and trace, rather than making a new one. Otherwise, the collector's new trace is in the returned context and in the collector.",
     ["histories", "inputs"], "for every tree of derived contexts and order of puts and gets",
     "Tests put and get a trace once.",
     ["helpers.go", "collector.go", "trace_core.go"], [("Put / Get / MaybeGet", "helpers.go"), ("Collector.NewTrace", "collector.go")], ["Get", "MaybeGet", "Trace.Events"])
prop("C23", "Prefixes and regions annotate events, and change nothing else",
     "An event made via a prefixed trace is an event of the original trace whose text is that of every enclosing prefix (outermost first, each formatted with its own args, its format trimmed of surrounding space, and followed by a space) and then its own; an empty prefix changes nothing (formats must fit their args, without explicit argument indexes). A region named n adds the event '→ n', gives a trace that prefixes events with '·', and adds '← n [duration]' when it's finished, however these are nested, and whatever characters are in the name. Original traces and contexts, other prefixes, and events already made aren't affected.",
     ["inputs", "histories"], "for every nesting of prefixes and regions, with any formats, args and names",
     "Tests use one prefix and one region with simple names.",
     ["helpers.go"], [("Prefix / prefixTrace", "helpers.go"), ("Region", "helpers.go")], ["Trace.Events"])
prop("C24", "Decorators wrap in order, and the log decorator logs every event once",
     "Decorators are applied to every trace exactly once, in the order they're given, so that the last one is outermost. A trace with a log decorator writes one line for its creation, for each event, and for its Finish, each starting with the trace ID and with the same text as the event (after 'ERROR: ' for errors), and the last with the outcome and duration; a logger decorator writes the same to a logger. Log decorated traces otherwise behave like the trace they wrap, including being freed when they're dropped.",
     ["inputs", "configurations"], "for every list of decorators and every sequence of calls",
     "One test logs a few events.",
     ["decorators.go", "collector.go", "trace_core.go"], [("LogDecorator / logTrace", "decorators.go"), ("New, Collector.NewTrace", "trace_core.go, collector.go")], ["log output", "decorator calls"])
prop("C25", "The HTTP middleware traces every request, and doesn't change it",
     "For each request, the middleware creates one trace with the category given by the categorize function, available to the handler in the request's context, and finished when the handler returns or panics. Its first events have the remote address, method and URL, and the User-Agent, Accept and Content-Type headers if present, and its last event has the final status code, the number of body bytes and duration of the response. The handler sees the same request otherwise, and the client receives the same response, including informational responses and flushes, as without the middleware, for handlers that use the methods of http.ResponseWriter and http.Flusher.",
     ["inputs", "fault_sequences"], "for every request, and every sequence of calls that a handler makes on its response writer",
     "No test covers the middleware with anything but a simple handler.",
     ["trcweb/middleware.go"], [("Middleware", "trcweb/middleware.go"), ("interceptor", "trcweb/middleware.go")], ["HTTP responses", "Trace.Events"])
prop("C26", "The stack of an event begins where the event was made",
     "The first frame of the stack of an event is the function, file and line of the code that called into package trc or eztrc, followed by its callers in order, for each of the event methods, Region, and their eztrc equivalents, through any usual number (a handful) of decorators, prefixes and regions. Frames of the library's own wrappers aren't included. Traces created while stacks are disabled have no stacks, and changing that doesn't affect existing traces.",
     ["inputs", "configurations"], "for every way of making an event, and every stack of wrappers",
     "Tests check one call site per method without wrappers.",
     ["trace_core.go", "helpers.go", "decorators.go", "eztrc/easy.go", "trace.go"], [("coreEvent.getStack", "trace_core.go"), ("ignoreStackFrameFunction", "trace_core.go")], ["Event.Stack"])
prop("C27", "Package eztrc does the same as package trc with a global collector",
     "Traces made with eztrc.New and eztrc.Middleware are in eztrc.Collector, and visible via eztrc.Handler. Each eztrc function has the same effect on the trace in the context as the trc function or Trace method of the same name: the same events, in the same order, with the same text, error flags and call sites.",
     ["inputs", "histories"], "for every program written against either package",
     "There's no test of package eztrc.",
     ["eztrc/easy.go"], [("eztrc wrappers", "eztrc/easy.go")], ["Trace.Events", "eztrc.Handler"])
prop("C28", "Static traces survive JSON, and can't be modified by event methods",
     "A search or stream trace that's encoded as JSON and decoded again has the same source, ID, category, start time, duration, status, and events with their text, time, error flag and stack, under the documented JSON field names. Event methods and Finish have no effect on a static trace. TrimStacks cuts the stack of each event to the given depth, where 0 means no change and a negative depth means no stacks, without modifying the events of the trace it was made from.",
     ["inputs"], "for every trace and depth",
     "One test trims a single stack.",
     ["trace_static.go", "trace.go"], [("StaticTrace", "trace_static.go"), ("TrimStacks", "trace_static.go")], ["StaticTrace", "json.Marshal"])
prop("C29", "The trc command searches and streams what its flags say",
     "The trc search command sends a request with the filter, limit and stack depth that its flags (or TRC_ environment variables) describe to every given URI, and writes the merged response as JSON to stdout, with request and statistics only if asked for. The trc stream command writes each finished trace that matches its flags, or each step of a trace if asked for events, as one JSON object to stdout, reconnects when a stream fails, and ends without an error when it's interrupted. Invalid flags and failing servers lead to an error message or a reported problem, and never to a crash.",
     ["inputs", "fault_sequences"], "for every combination of flags, and every response of the servers",
     "There are no tests of the command.",
     ["cmd/trc/main.go", "cmd/trc/search.go", "cmd/trc/stream.go", "cmd/trc/trc.go"], [("searchConfig.Exec", "cmd/trc/search.go"), ("streamConfig.Exec", "cmd/trc/stream.go")], ["stdout, stderr and exit code", "requests made to servers"])
prop("C30", "A collector can be used by any number of goroutines at once",
     "When goroutines create, write to and finish traces in a collector while others search it, resize it, and stream from it, there are no data races, panics or deadlocks. Every search sees a consistent state: no category has more traces than its size, none has duplicates, traces are in order, statistics agree with the total count, and a trace that's finished in a result has all of its events. Once everything is done, the collector has exactly the newest traces of each category.",
     ["schedules", "histories"], "for all interleavings of collector operations",
     "Tests use a collector from a single goroutine.",
     ["collector.go", "internal/trcringbuf/ringbuffer.go", "broker.go", "trace_core.go"], [("RingBuffers.mtx, RingBuffer.mtx", "internal/trcringbuf/ringbuffer.go"), ("Broker.mtx", "broker.go")], ["Collector.Search", "race detector"])

prop("C31", "Dropped traces, and searches and streams that ended, hold no resources",
     "A collector refers to nothing but the traces it currently holds: traces it has dropped, the args of their events, the results of searches, and traces that were sent to subscribers can be garbage collected once their users have let go of them. When a search or stream has returned, or a moment after its context was canceled, everything that was made for it is gone, in the client and in the server -- goroutines, HTTP response bodies, requests and subscriptions -- whether it succeeded, failed, or was canceled at any point.",
     ["histories", "schedules", "faults"], "for every history of traces, searches and streams, and every point of failure or cancelation",
     "Tests make a few small traces, and never look at what's left of them, or of canceled calls.",
     ["collector.go", "internal/trcringbuf/ringbuffer.go", "broker.go", "trace_core.go", "search_types.go", "trcweb/trace_server.go"], [("RingBuffer.Resize", "internal/trcringbuf/ringbuffer.go"), ("MultiSearcher.Search scatter/gather", "search_types.go"), ("StreamClient.Stream, handleStream", "trcweb/trace_server.go")], ["finalizers", "goroutine stacks", "Broker.StreamStats"])

prop("C32", "A stream client reconnects, and gives up only when that's pointless",
     "A stream client that can't connect, gets a server error (5xx), or whose stream ends or breaks, connects again, at least its retry interval (limited to 1s..60s) after the previous attempt, for as long as it takes, and receives each complete event of every connection once and in order, but no incomplete one. Any other status than 200 or 204, another content type, or an event with invalid contents makes Stream return an error, 204 makes it return without one, and so does canceling its context, at once, also while it's waiting to reconnect. Every request goes to the client's URI, with the URI's own query parameters and those of the filter, and is made with the client's HTTPClient, if it has one.",
     ["fault_sequences", "schedules"], "for every sequence of failures and responses of the server, and every point of cancelation",
     "Tests stream from a server that works, to a client which is never disconnected.",
     ["trcweb/trace_server.go"], [("StreamClient.Stream", "trcweb/trace_server.go"), ("eventSource", "trcweb/trace_server.go")], ["StreamClient.Stream", "requests made to the server", "HTTPClient.Do"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
