// Package kit is the shared machinery of the property checks: the runner that
// drives rapid, counts what was generated and guards against hangs, reference
// models, generators and the simulated deployment.
package kit

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/cryptotest"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Sub is one generator+oracle pair contributing to a property.
type Sub struct {
	Name            string
	Quick, Thorough int  // total number of cases per tier, over all shards
	Bubble          bool // run every case under a simulated clock
	Prop            func(rt *rapid.T, c *Case)
}

// Case collects what one generated case did.
type Case struct {
	sub        string
	desc       strings.Builder
	nontrivial bool
	classes    map[string]int
	t          *testing.T
}

const maxDesc = 6000

// Logf records a step of the case (an operation and its arguments).
func (c *Case) Logf(format string, args ...any) {
	if c.desc.Len() < maxDesc {
		fmt.Fprintf(&c.desc, format+"; ", args...)
	}
}

// Class counts an interesting feature of the case.
func (c *Case) Class(label string) { c.classes[label]++ }

// NonTrivial marks the case as exercising the property by the stated rule.
func (c *Case) NonTrivial() { c.nontrivial = true }

// Stats is what a shard reports to the driver.
type Stats struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Hashes      []uint64       `json:"hashes"`
	Classes     map[string]int `json:"classes"`
	Subs        map[string]int `json:"subs"`
	Samples     []string       `json:"samples"`
	Rule        string         `json:"rule"`
	Known       []string       `json:"known"`
}

var (
	stats   = Stats{Classes: map[string]int{}, Subs: map[string]int{}}
	hashes  = map[uint64]struct{}{}
	samples = map[string]int{}
	mu      sync.Mutex

	current     atomic.Pointer[Case]
	caseCPU     atomic.Int64
	failing     atomic.Bool
	caseCounter atomic.Int64
)

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	maxCaseCPU  = 150 * time.Second
	maxCaseHeap = 3 << 30
)

// watchdog turns a case that burns CPU or memory without bound into a report.
// It looks at CPU time, never at wall time, so that a busy machine is no alarm.
func watchdog() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(200 * time.Millisecond)
		c := current.Load()
		if c == nil {
			continue
		}
		metrics.Read(sample)
		heap := sample[0].Value.Uint64()
		used := cpuTime() - time.Duration(caseCPU.Load())
		reason := ""
		if used > maxCaseCPU {
			reason = fmt.Sprintf("one case used more than %v of CPU time (hang)", maxCaseCPU)
		} else if heap > maxCaseHeap {
			reason = fmt.Sprintf("one case made the heap grow beyond %d bytes", uint64(maxCaseHeap))
		}
		if reason == "" {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		msg := fmt.Sprintf("WATCHDOG: %s\nsub-check: %s\ncase number: %d\nflags: seed=%v checks=%v\ncase: %s\n\n%s",
			reason, c.sub, caseCounter.Load(), flag.Lookup("rapid.seed").Value, flag.Lookup("rapid.checks").Value, c.desc.String(), buf)
		fmt.Println(msg)
		if p := os.Getenv("VERIF_HANG"); p != "" {
			os.WriteFile(p, []byte(msg), 0o644)
		}
		os.Exit(3)
	}
}

// Main is the TestMain of every check binary.
func Main(m *testing.M) {
	debug.SetGCPercent(200)
	go watchdog()
	code := m.Run()
	writeStats()
	os.Exit(code)
}

func writeStats() {
	p := os.Getenv("VERIF_STATS")
	if p == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	for h := range hashes {
		stats.Hashes = append(stats.Hashes, h)
	}
	sort.Slice(stats.Hashes, func(i, j int) bool { return stats.Hashes[i] < stats.Hashes[j] })
	raw, err := json.Marshal(&stats)
	if err == nil {
		os.WriteFile(p, raw, 0o644)
	}
}

func (c *Case) finish() {
	mu.Lock()
	defer mu.Unlock()
	stats.Evaluations++
	stats.Subs[c.sub]++
	for k, v := range c.classes {
		stats.Classes[c.sub+"/"+k] += v
	}
	if !c.nontrivial {
		return
	}
	stats.NonTrivial++
	h := fnv.New64a()
	h.Write([]byte(c.sub))
	h.Write([]byte(c.desc.String()))
	k := h.Sum64()
	if _, ok := hashes[k]; !ok {
		hashes[k] = struct{}{}
		if samples[c.sub] < 2 {
			samples[c.sub]++
			s := c.desc.String()
			if len(s) > 700 {
				s = s[:700] + "…"
			}
			stats.Samples = append(stats.Samples, c.sub+": "+s)
		}
	}
}

// Known reports that a listed finding was observed.
func Known(key string) {
	mu.Lock()
	defer mu.Unlock()
	for _, k := range stats.Known {
		if k == key {
			return
		}
	}
	stats.Known = append(stats.Known, key)
}

// Run drives the sub-checks of one property.
func Run(t *testing.T, rule string, subs ...Sub) {
	stats.Rule = rule
	seed := envInt("VERIF_SEED", 1)
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	only := os.Getenv("VERIF_SUB")

	for i, sub := range subs {
		if only != "" && only != sub.Name {
			continue
		}
		n := sub.Quick
		if Thorough() {
			n = sub.Thorough
		}
		if v := envInt("VERIF_CHECKS", 0); v > 0 {
			n = v * shards
		}
		n = (n + shards - 1) / shards
		if n == 0 {
			continue
		}
		t.Run(sub.Name, func(t *testing.T) {
			// Separate, non-zero seeds for every (seed, sub-check, shard).
			s := (uint64(seed)&0xffffff)<<40 + uint64(i+1)<<34 + uint64(shard+1)<<28 + 1
			if flag.Lookup("rapid.failfile").Value.String() == "" {
				flag.Set("rapid.seed", strconv.FormatUint(s, 10))
			}
			flag.Set("rapid.checks", strconv.Itoa(n))
			flag.Set("rapid.shrinktime", "20s")
			rapid.Check(t, func(rt *rapid.T) { runCase(t, rt, sub) })
		})
		if t.Failed() {
			return
		}
	}
}

func runCase(t *testing.T, rt *rapid.T, sub Sub) {
	c := &Case{sub: sub.Name, classes: map[string]int{}, t: t}
	// Keys, openings and signatures are part of the case too: a replay sees the
	// same ones.
	cryptotest.SetGlobalRandom(t, rapid.Uint64().Draw(rt, "randomness"))
	caseCPU.Store(int64(cpuTime()))
	current.Store(c)
	caseCounter.Add(1)
	ok := false
	defer func() {
		current.Store(nil)
		if ok {
			if !failing.Load() {
				c.finish()
			}
		} else {
			failing.Store(true)
			rt.Logf("case: %s", c.desc.String())
		}
	}()

	if !sub.Bubble {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if isRuntimePanic(r) {
						rt.Logf("panic: %v\n%s", r, trimStack(debug.Stack()))
					}
					repanic(origin(r), r)
				}
			}()
			sub.Prop(rt, c)
		}()
		ok = true
		return
	}
	c.Bubble(rt, func() { sub.Prop(rt, c) })
	ok = true
}

// Bubble runs f under a simulated clock that starts at 2000-01-01.
func (c *Case) Bubble(rt *rapid.T, f func()) {
	var escaped any
	depth := 0
	synctest.Test(c.t, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				if isRuntimePanic(r) {
					rt.Logf("panic: %v\n%s", r, trimStack(debug.Stack()))
				}
				escaped, depth = r, origin(r)
			}
		}()
		f()
	})
	if escaped != nil {
		repanic(depth, escaped)
	}
}

// When rapid shrinks it tells failures apart by the stack of the panic only. A
// panic that is caught and raised again must therefore be raised from a place
// that depends on where it came from.
func origin(r any) int {
	if fmt.Sprintf("%T", r) == "rapid.invalidData" {
		return 0
	}
	pcs := make([]uintptr, 200)
	frames := runtime.CallersFrames(pcs[:runtime.Callers(1, pcs)])
	h := fnv.New32a()
	started := false
	for {
		f, more := frames.Next()
		if started && strings.HasPrefix(f.Function, "verif/") {
			fmt.Fprintf(h, "%s:%d ", f.Function, f.Line)
		}
		started = started || f.Function == "runtime.gopanic"
		if !more {
			break
		}
	}
	return 1 + int(h.Sum32()%20)
}

func repanic(depth int, r any) {
	if depth == 0 {
		panic(r)
	}
	repanic(depth-1, r)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// isRuntimePanic tells real panics from rapid's own control flow.
func isRuntimePanic(r any) bool {
	s := fmt.Sprintf("%T", r)
	return s != "rapid.stopTest" && s != "rapid.invalidData"
}

// NoPanic runs f and turns a panic into a property failure that names what was
// being done.
func NoPanic(rt *rapid.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if !isRuntimePanic(r) {
				panic(r)
			}
			rt.Logf("%s", trimStack(debug.Stack()))
			rt.Fatalf("%s panicked: %v", what, r)
		}
	}()
	f()
}
