// Command driver runs the check of one property: it builds the test binary
// from /repo's current working tree, runs it in several independent shards,
// merges what they counted into /verif/evidence/<id>.json and reports the
// outcome (exit 0 held, exit 1 VIOLATION, anything else an error).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type stats struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Hashes      []uint64       `json:"hashes"`
	Classes     map[string]int `json:"classes"`
	Subs        map[string]int `json:"subs"`
	Samples     []string       `json:"samples"`
	Rule        string         `json:"rule"`
	Known       []string       `json:"known"`
}

type result struct {
	shard int
	code  int
	out   string
	dir   string
	st    *stats
}

var levels = map[string]string{"P06": "fault_enumeration", "P08": "fault_enumeration", "P19": "fault_enumeration"}

func fail(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		fail("usage: driver PROPERTY [REPLAYFILE]")
	}
	prop := os.Args[1]
	replay := ""
	if len(os.Args) > 2 {
		replay, _ = filepath.Abs(os.Args[2])
	}
	start := time.Now()
	harness, err := os.Getwd()
	if err != nil {
		fail("%v", err)
	}
	verif := filepath.Dir(harness)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}

	tmp, err := os.MkdirTemp("", "katie-check-")
	if err != nil {
		fail("%v", err)
	}
	code := run(prop, replay, tier, seed, harness, verif, tmp, start)
	os.RemoveAll(tmp)
	os.Exit(code)
}

func run(prop, replay, tier string, seed int, harness, verif, tmp string, start time.Time) int {
	bin := filepath.Join(tmp, "props.test")
	build := exec.Command("go", "test", "-c", "-o", bin, "./props")
	build.Dir = harness
	if out, err := build.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "check error: build failed: %v\n%s\n", err, out)
		return 2
	}

	shards := 8
	if v, err := strconv.Atoi(os.Getenv("VERIF_SHARDS")); err == nil && v > 0 {
		shards = v
	}
	limit := 860 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	env := os.Environ()
	var extra []string
	if replay != "" {
		shards = 1
		raw, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintf(os.Stderr, "check error: %v\n", err)
			return 2
		}
		if m := regexp.MustCompile(`(?m)^# sub-check: (\S+)`).FindSubmatch(raw); m != nil {
			env = append(env, "VERIF_SUB="+string(m[1]), "VERIF_CHECKS=1")
		}
		extra = []string{"-rapid.failfile=" + replay}
	}

	var mu sync.Mutex
	var running []*exec.Cmd
	stop := false
	killAll := func() {
		mu.Lock()
		defer mu.Unlock()
		stop = true
		for _, c := range running {
			c.Process.Kill()
		}
	}
	timedOut := false
	timer := time.AfterFunc(limit-time.Since(start), func() { timedOut = true; killAll() })
	defer timer.Stop()

	results := make(chan result, shards)
	for i := 0; i < shards; i++ {
		dir := filepath.Join(tmp, fmt.Sprintf("shard%d", i))
		os.MkdirAll(dir, 0o755)
		args := append([]string{"-test.run", "^Test" + prop + "$", "-test.timeout", "0"}, extra...)
		cmd := exec.Command(bin, args...)
		cmd.Dir = dir
		cmd.Env = append(append([]string{}, env...),
			fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier,
			fmt.Sprintf("VERIF_SHARD=%d", i), fmt.Sprintf("VERIF_SHARDS=%d", shards),
			"VERIF_STATS="+filepath.Join(dir, "stats.json"), "VERIF_HANG="+filepath.Join(dir, "hang.txt"),
			"TMPDIR="+dir, "GOMAXPROCS=4", "VERIF_DIR="+verif)
		var buf bytes.Buffer
		cmd.Stdout, cmd.Stderr = &buf, &buf
		mu.Lock()
		if err := cmd.Start(); err != nil {
			mu.Unlock()
			fmt.Fprintf(os.Stderr, "check error: %v\n", err)
			killAll()
			return 2
		}
		running = append(running, cmd)
		mu.Unlock()
		go func() {
			err := cmd.Wait()
			r := result{shard: i, out: buf.String(), dir: dir}
			if err != nil {
				r.code = -1
				if ee, ok := err.(*exec.ExitError); ok {
					r.code = ee.ExitCode()
				}
			}
			if raw, err := os.ReadFile(filepath.Join(dir, "stats.json")); err == nil {
				st := &stats{}
				if json.Unmarshal(raw, st) == nil {
					r.st = st
				}
			}
			results <- r
		}()
	}

	merged := stats{Classes: map[string]int{}, Subs: map[string]int{}}
	distinct := map[uint64]struct{}{}
	known := map[string]struct{}{}
	var violation, broken *result
	for i := 0; i < shards; i++ {
		r := <-results
		if r.st != nil {
			merged.Evaluations += r.st.Evaluations
			merged.NonTrivial += r.st.NonTrivial
			merged.Rule = r.st.Rule
			for k, v := range r.st.Classes {
				merged.Classes[k] += v
			}
			for k, v := range r.st.Subs {
				merged.Subs[k] += v
			}
			for _, h := range r.st.Hashes {
				distinct[h] = struct{}{}
			}
			for _, k := range r.st.Known {
				known[k] = struct{}{}
			}
			if len(merged.Samples) < 12 {
				merged.Samples = append(merged.Samples, r.st.Samples...)
			}
		}
		if r.code == 0 || violation != nil || (stop && !timedOut) {
			continue
		}
		if isViolation(r) {
			violation = &r
			killAll()
		} else if broken == nil {
			broken = &r
			killAll()
		}
	}
	if timedOut && violation == nil {
		fmt.Fprintf(os.Stderr, "check error: time limit reached, inconclusive\n")
		return 2
	}
	if violation == nil && broken != nil {
		fmt.Fprintf(os.Stderr, "check error: shard %d ended with %d\n%s\n", broken.shard, broken.code, tail(broken.out, 8000))
		return 2
	}
	if replay != "" {
		if violation != nil {
			fmt.Println(tail(violation.out, 12000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
			return 1
		}
		fmt.Println("replay: no violation")
		return 0
	}

	code, nviol := 0, 0
	var line string
	if violation != nil {
		code, nviol = 1, 1
		path := saveReplay(verif, prop, seed, violation)
		fmt.Println(tail(violation.out, 12000))
		line = fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path)
	}
	for _, l := range knownLines(verif, prop, known) {
		fmt.Println(l)
	}

	samples := merged.Samples
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if samples == nil {
		samples = []string{}
	}
	level := levels[prop]
	if level == "" {
		level = "exploration"
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]any{
			"evaluations": merged.Evaluations, "distinct_nontrivial": len(distinct),
			"rule": merged.Rule, "samples": samples, "cases_by_generator": merged.Subs,
			"classes": merged.Classes, "known_findings_seen": keys(known),
		},
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
		"assumptions": []string{"the harness' reference models and the fake cipher suite (real SHA-256, MACs in place of signatures and VRF) are faithful", "the Go toolchain, rapid and testing/synctest"},
	}
	raw, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(raw, '\n'), 0o644); err != nil {
		fmt.Fprintf(os.Stderr, "check error: %v\n", err)
		if code == 0 {
			return 2
		}
	}
	if code == 0 && merged.Evaluations == 0 {
		fmt.Fprintf(os.Stderr, "check error: no case was run\n")
		return 2
	}
	if line != "" {
		fmt.Println(line)
	} else {
		fmt.Printf("%s held: %d cases, %d distinct non-trivial, %.1fs (%s, seed %d)\n", prop, merged.Evaluations, len(distinct), time.Since(start).Seconds(), tier, seed)
	}
	return code
}

// isViolation tells a falsified property from a broken harness.
func isViolation(r result) bool {
	if _, err := os.Stat(filepath.Join(r.dir, "hang.txt")); err == nil && r.code == 3 {
		return true
	}
	if r.code == 1 {
		return strings.Contains(r.out, "[rapid] failed after") || strings.Contains(r.out, "[rapid] panic after") ||
			strings.Contains(r.out, "[rapid] flaky test")
	}
	if r.code == 2 {
		// A crash outside the property's goroutine (for example in a
		// goroutine of the code under test, or a fatal runtime error).
		if strings.Contains(r.out, "test timed out") || strings.Contains(r.out, "out of memory") || strings.Contains(r.out, "cannot allocate") {
			return false
		}
		return strings.Contains(r.out, "github.com/Bren2010/katie") &&
			(strings.Contains(r.out, "panic:") || strings.Contains(r.out, "fatal error:"))
	}
	return false
}

func saveReplay(verif, prop string, seed int, r *result) string {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-shard%d.fail", prop, seed, r.shard))
	var body []byte
	sub := ""
	filepath.Walk(filepath.Join(r.dir, "testdata"), func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() && strings.HasSuffix(p, ".fail") {
			body, _ = os.ReadFile(p)
			// testdata/rapid/TestP01_sub/....fail
			base := filepath.Base(filepath.Dir(p))
			sub = strings.TrimPrefix(base, "Test"+prop+"_")
		}
		return nil
	})
	if m := regexp.MustCompile(`--- FAIL: Test\w+/(\S+)`).FindStringSubmatch(r.out); m != nil {
		sub = m[1]
	}
	if body == nil {
		body, _ = os.ReadFile(filepath.Join(r.dir, "hang.txt"))
		if body == nil {
			body = []byte(tail(r.out, 200000))
		}
		body = append([]byte(fmt.Sprintf("# no minimised case: reproduce with VERIF_SEED=%d (shard %d of 8)\n", seed, r.shard)), body...)
	}
	os.WriteFile(path, append([]byte("# sub-check: "+sub+"\n"), body...), 0o644)
	return path
}

func keys(m map[string]struct{}) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// knownLines prints the listed findings of this property.
func knownLines(verif, prop string, seen map[string]struct{}) []string {
	raw, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(raw), "\n") {
		if strings.HasPrefix(l, "KNOWN-FINDING: property="+prop+" ") {
			out = append(out, l)
		}
	}
	return out
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}
