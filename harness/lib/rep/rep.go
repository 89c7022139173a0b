// Package rep collects what a check observed and writes the report that check.py turns into a verdict.
package rep

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

type Violation struct {
	Sig     string `json:"sig"`
	Message string `json:"message"`
	Witness any    `json:"witness,omitempty"`
}

type R struct {
	T *testing.T

	Prop     string
	Thorough bool
	Seed     uint64

	mu           sync.Mutex
	evals        int64
	distinct     map[uint64]struct{}
	nontrivial   int64
	counters     map[string]int64
	sets         map[string]map[uint64]struct{}
	samples      []any
	violations   []Violation
	inconclusive []string
	needs        map[string]int64
	rule         string
	assumptions  []string

	progressCPU  time.Duration
	progressWhat string
	done         bool
}

const maxViolations = 5

// Run executes the body of a check and writes the report.
func Run(t *testing.T, prop string, rule string, body func(r *R)) {
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	r := &R{
		T: t, Prop: prop, Seed: seed, rule: rule,
		Thorough: os.Getenv("VERIF_TIER") == "thorough",
		distinct: map[uint64]struct{}{},
		counters: map[string]int64{},
		sets:     map[string]map[uint64]struct{}{},
		needs:    map[string]int64{},
	}

	body(r)
	r.finish()
}

// N picks the number of cases by tier.
func (r *R) N(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

func Hash(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.Write([]byte(v))
		case []byte:
			h.Write(v)
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// Rand returns a generator that is determined by the seed and the given name.
func (r *R) Rand(name ...any) *rand.Rand {
	return rand.New(rand.NewPCG(r.Seed, Hash(append([]any{r.Prop}, name...)...)))
}

// Eval counts one executed case. key identifies the case, nontrivial says if it counts by the rule.
func (r *R) Eval(key uint64, nontrivial bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if nontrivial {
		r.distinct[key] = struct{}{}
	}
}

func (r *R) Count(name string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.counters[name] += int64(n)
}

// Distinct counts distinct values of some observed kind.
func (r *R) Distinct(name string, key uint64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	s := r.sets[name]
	if s == nil {
		s = map[uint64]struct{}{}
		r.sets[name] = s
	}
	s[key] = struct{}{}
}

// Need makes the run inconclusive if the counter stays below min.
func (r *R) Need(name string, min int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.needs[name] = int64(min)
}

func (r *R) Assume(text string) { r.assumptions = append(r.assumptions, text) }

func (r *R) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 4 {
		r.samples = append(r.samples, shorten(v, 1500))
	}
}

func shorten(v any, n int) any {
	b, err := json.Marshal(v)
	if err != nil {
		b, _ = json.Marshal(fmt.Sprintf("%+v", v))
	}
	if len(b) <= n {
		return json.RawMessage(b)
	}
	return string(b[:n]) + "..."
}

// Violate records a violation of the property. The run ends after some of them.
func (r *R) Violate(sig, message string, witness any) {
	r.mu.Lock()
	r.violations = append(r.violations, Violation{Sig: sig, Message: message, Witness: shorten(witness, 200_000)})
	n := len(r.violations)
	if !r.done {
		// the run might not get to its end any more
		r.write()
	}
	r.mu.Unlock()

	if n >= maxViolations {
		r.finish()
		syscall.Exit(0)
	}
}

// Fatal records a violation and ends the run immediately, used if going on makes no sense.
func (r *R) Fatal(sig, message string, witness any) {
	r.Violate(sig, message, witness)
	r.finish()
	syscall.Exit(0)
}

func (r *R) Violated() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.violations) > 0
}

func (r *R) Inconclusive(format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.inconclusive) < 20 {
		r.inconclusive = append(r.inconclusive, fmt.Sprintf(format, args...))
	}
}

// Finish ends the run with what was found.
func (r *R) Finish() {
	r.finish()
	syscall.Exit(0)
}

// Abort ends the run as inconclusive (unless a violation was recorded before).
func (r *R) Abort(format string, args ...any) {
	r.Inconclusive(format, args...)
	r.finish()
	syscall.Exit(0)
}

func (r *R) finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.done {
		return
	}
	r.done = true

	for name, s := range r.sets {
		r.counters[name] = int64(len(s))
	}
	for name, min := range r.needs {
		if r.counters[name] < min {
			r.inconclusive = append(r.inconclusive, fmt.Sprintf("observed only %d of %s, need %d", r.counters[name], name, min))
		}
	}
	sort.Strings(r.inconclusive)
	r.write()
}

// write writes the report of what was observed so far.
func (r *R) write() {
	out := map[string]any{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.rule,
		"samples":             r.samples,
		"counters":            r.counters,
		"violations":          r.violations,
		"inconclusive":        r.inconclusive,
		"assumptions":         r.assumptions,
		"seed":                r.Seed,
	}
	b, err := json.Marshal(out)
	if err != nil {
		panic(err)
	}
	path := os.Getenv("VERIF_OUT")
	if path == "" {
		b, _ = json.MarshalIndent(out, "", " ")
		os.Stdout.Write(append(b, '\n'))
		return
	}
	if err := os.WriteFile(path+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(path+".tmp", path); err != nil {
		panic(err)
	}
}

// Journal stores the current case, so that it can be reported if the process dies.
func (r *R) Journal(b []byte) {
	if path := os.Getenv("VERIF_JOURNAL"); path != "" {
		_ = os.WriteFile(path, b, 0o644)
	}
}

func CPU() time.Duration {
	var u syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// Progress tells the watchdog that the next step starts.
func (r *R) Progress(what string) {
	cpu := CPU()
	r.mu.Lock()
	r.progressCPU, r.progressWhat = cpu, what
	r.mu.Unlock()
}

// WatchCPU starts a watchdog (must be called outside of any synctest bubble): if a single step burns more than
// the given cpu time while code of the proxy is running, the step is considered to never end.
func (r *R) WatchCPU(limit time.Duration) {
	r.Progress("start")
	go func() {
		for {
			time.Sleep(250 * time.Millisecond)
			r.mu.Lock()
			used := CPU() - r.progressCPU
			what, done := r.progressWhat, r.done
			r.mu.Unlock()
			if done {
				return
			}
			if used > limit {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				if stack := runningInProxy(string(buf)); stack != "" {
					r.Fatal("stuck", fmt.Sprintf("step did not end after %s cpu time: %s", used, what), stack)
				}
				r.Abort("step %q did not end after %s cpu time", what, used)
			}
		}
	}()
}

func runningInProxy(stacks string) string {
	for _, g := range strings.Split(stacks, "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(head, "running") || strings.Contains(head, "runnable") {
			if strings.Contains(g, "flachnetz/dd-zipkin-proxy") {
				return g
			}
		}
	}
	return ""
}
