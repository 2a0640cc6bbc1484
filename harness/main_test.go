// Package harness holds the generated-input checks for github.com/peterbourgon/trc.
// Every property Cnn is decided by TestCnn, which is a group of rapid checks.
// Only the public API of trc is used, so that the checks judge behaviour.
package harness

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var isThorough = os.Getenv("VERIF_TIER") == "thorough"

// Case counts of checks are multiplied by these, in each tier.
const (
	quickScale    = 15
	thoroughScale = 100
	raceDivisor   = 4
)

// ---- statistics -----------------------------------------------------------

type subStats struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Rule        string         `json:"rule"`
	Labels      map[string]int `json:"labels,omitempty"`
	Samples     []string       `json:"samples,omitempty"`

	seen map[uint64]struct{}
	Seen []uint64 `json:"seen"` // hashes of distinct non-trivial cases
}

var (
	statsMtx sync.Mutex
	stats    = map[string]*subStats{}
)

func statsFor(name string) *subStats {
	s, ok := stats[name]
	if !ok {
		s = &subStats{Labels: map[string]int{}, seen: map[uint64]struct{}{}}
		stats[name] = s
	}
	return s
}

// kase is a single generated case. Properties describe what they generated via
// note, label interesting features, and call interesting when the case is
// non-trivial by the check's rule.
type kase struct {
	name   string
	desc   strings.Builder
	labels map[string]int
	good   bool
}

func (k *kase) notef(format string, args ...any) {
	if k.desc.Len() < 1<<16 {
		fmt.Fprintf(&k.desc, format, args...)
		k.desc.WriteString("; ")
	}
}

func (k *kase) label(cond bool, name string) {
	if cond {
		k.labels[name]++
	}
}

// interesting marks the case as non-trivial if cond is true.
func (k *kase) interesting(cond bool) {
	if cond {
		k.good = true
	}
}

func (k *kase) flush() {
	statsMtx.Lock()
	defer statsMtx.Unlock()
	s := statsFor(k.name)
	s.Evaluations++
	for l := range k.labels {
		s.Labels[l]++
	}
	if k.good {
		s.Nontrivial++
		h := fnv.New64a()
		h.Write([]byte(k.desc.String()))
		if _, ok := s.seen[h.Sum64()]; !ok {
			s.seen[h.Sum64()] = struct{}{}
			s.Distinct++
			if len(s.Samples) < 3 || (s.Distinct%997 == 0 && len(s.Samples) < 6) {
				d := k.desc.String()
				if len(d) > 1500 {
					d = d[:1500] + " ..."
				}
				s.Samples = append(s.Samples, strings.ToValidUTF8(d, "?"))
			}
		}
	}
}

var aCheckFailed atomic.Bool

// check runs a rapid check as a subtest. The rule says how cases are made and
// what makes one non-trivial.
func check(t *testing.T, name, rule string, quick int, prop func(*rapid.T, *kase)) {
	t.Helper()
	checkN(t, name, rule, quick*quickScale, quick*thoroughScale, prop)
}

var (
	failing      atomic.Bool
	processStart = time.Now()
	timeBudget   = budget()
)

func budget() time.Duration {
	if n, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil {
		return time.Duration(n) * time.Second
	}
	return time.Hour
}

// inShrinker says if the caller's case is an attempt to find a smaller one.
func inShrinker() bool {
	pcs := make([]uintptr, 50)
	frames := runtime.CallersFrames(pcs[:runtime.Callers(0, pcs)])
	for {
		frame, more := frames.Next()
		if strings.Contains(frame.Function, "rapid.(*shrinker)") {
			return true
		}
		if !more {
			return false
		}
	}
}

var shrinkBegin = sync.OnceValue(time.Now)

func shrunkFor() time.Duration { return time.Since(shrinkBegin()) }

func checkN(t *testing.T, name, rule string, quick, thorough int, prop func(*rapid.T, *kase)) {
	t.Helper()
	t.Run(name, func(t *testing.T) {
		full := t.Name()
		if aCheckFailed.Load() {
			t.Skip("another check of this property has failed")
		}
		defer func() {
			if t.Failed() {
				aCheckFailed.Store(true)
			}
		}()
		statsMtx.Lock()
		statsFor(full).Rule = rule
		statsMtx.Unlock()
		n := quick
		if isThorough {
			n = thorough
		}
		if raceEnabled { // these runs are in addition to the others
			n = (n + raceDivisor - 1) / raceDivisor
		}
		if s := os.Getenv("VERIF_CHECKS"); s != "" { // for experiments
			n, _ = strconv.Atoi(s)
		}
		flag.Set("rapid.checks", strconv.Itoa(n))
		begin := time.Now()
		rapid.Check(t, func(rt *rapid.T) {
			// If cases are much slower than usual, there are fewer of them. A
			// failing case, and attempts to find a smaller one, always run.
			if !failing.Load() && time.Since(processStart) > timeBudget {
				return
			}
			if failing.Load() && inShrinker() && shrunkFor() > 15*time.Second {
				return // rapid's own limit doesn't work if each attempt takes long
			}
			k := &kase{name: full, labels: map[string]int{}}
			defer k.flush()
			passed := false
			defer func() {
				if !passed {
					failing.Store(true)
				}
			}()
			prop(rt, k)
			passed = !rt.Failed()
		})
		if os.Getenv("VERIF_TIMING") != "" {
			fmt.Printf("TIMING %s %d cases %v\n", full, n, time.Since(begin))
		}
	})
}

func TestMain(m *testing.M) {
	flag.Parse()
	code := m.Run()
	if path := os.Getenv("VERIF_STATS"); path != "" {
		for _, s := range stats {
			for h := range s.seen {
				s.Seen = append(s.Seen, h)
			}
		}
		buf, err := json.Marshal(stats)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(path, buf, 0o644); err != nil {
			panic(err)
		}
	}
	os.Exit(code)
}

// ---- misc helpers ---------------------------------------------------------

// must reports an error of the harness itself, which isn't a violation.
func must(err error) {
	if err != nil {
		panic("HARNESS-ERROR: " + err.Error())
	}
}

type fataler interface {
	Fatalf(string, ...any)
	Helper()
}

// hangLimit is how long something that takes at most milliseconds may take
// before it's inspected for being stuck.
const hangLimit = 30 * time.Second

// waitLimit is how long to wait for things that happen at once, if not for load.
const waitLimit = 40 * time.Second

// Once something took too long, the check has failed, and other attempts (to
// find a smaller case) needn't wait as long.
var (
	tookTooLong atomic.Bool
	shortLimit  = 4 * time.Second
)

func limited(d time.Duration) time.Duration {
	if tookTooLong.Load() && d > shortLimit {
		return shortLimit
	}
	return d
}

var blockedRe = regexp.MustCompile(`(?s)goroutine \d+ \[(chan send|chan receive|select|sync\.Mutex\.Lock|sync\.RWMutex\.R?Lock|semacquire|sync\.WaitGroup\.Wait|sync\.Cond\.Wait|running|runnable)[^\]]*\]:`)

// finishes runs f, and fails if f is stuck in trc code. If f is merely slow, the
// run is inconclusive.
func finishes(t fataler, what string, f func()) {
	t.Helper()
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case x := <-done:
		if x != nil {
			panic(x)
		}
		return
	case <-time.After(limited(hangLimit)):
	}
	buf := make([]byte, 4<<20)
	first := stuckInTrc(string(buf[:runtime.Stack(buf, true)]))
	select {
	case x := <-done:
		if x != nil {
			panic(x)
		}
		panic("HARNESS-ERROR: inconclusive, too slow: " + what)
	case <-time.After(limited(10 * time.Second)):
	}
	tookTooLong.Store(true)
	dump := string(buf[:runtime.Stack(buf, true)])
	second := stuckInTrc(dump)
	for id := range second {
		if _, ok := first[id]; ok {
			fmt.Println("STUCK goroutines:\n" + second[id])
			t.Fatalf("%s: never returns: a goroutine is stuck in trc code:\n%s", what, second[id])
		}
	}
	fmt.Println(dump)
	t.Fatalf("%s: never returns", what)
}

var goroutineIDRe = regexp.MustCompile(`^goroutine (\d+) \[`)

func stuckInTrc(dump string) map[string]string {
	res := map[string]string{}
	for _, g := range strings.Split(dump, "\n\n") {
		m := goroutineIDRe.FindStringSubmatch(g)
		if m == nil || !blockedRe.MatchString(g) || !strings.Contains(g, "github.com/peterbourgon/trc") {
			continue
		}
		res[m[1]] = g
	}
	return res
}

// eventually polls cond, for conditions that are expected to hold very soon. It
// returns false when they don't.
func eventually(limit time.Duration, cond func() bool) bool {
	deadline := time.Now().Add(limited(limit))
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		if time.Now().After(deadline) {
			tookTooLong.Store(true)
			return false
		}
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(200 * time.Microsecond)
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func tempDir(pattern string) (string, func()) {
	dir, err := os.MkdirTemp("", pattern)
	must(err)
	return dir, func() { os.RemoveAll(dir) }
}

var _ = filepath.Join
