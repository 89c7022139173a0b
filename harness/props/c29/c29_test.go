package c29

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/sirupsen/logrus"

	"verif/harness/lib/agent"
	"verif/harness/lib/avro"
	"verif/harness/lib/kafka"
	"verif/harness/lib/ref"
	"verif/harness/lib/rep"
	"verif/harness/lib/svc"
)

// TestMain lets the binary be one of the proxies.
func TestMain(m *testing.M) {
	if args := os.Getenv("VERIF_PROXY_ARGS"); args != "" {
		logrus.SetOutput(io.Discard)
		os.Args = append([]string{"proxy"}, strings.Split(args, "\n")...)
		gate := os.Getenv("VERIF_PROXY_GATE")
		zipkinproxy.Main(func(span proxy.Span) (proxy.Span, error) {
			// everything is held up while the file is there
			for n := 0; ; n++ {
				if _, err := os.Stat(gate); err != nil {
					return span, nil
				}
				if n == 0 {
					_ = os.WriteFile(os.Getenv("VERIF_PROXY_HELD"), nil, 0o600)
				}
				time.Sleep(5 * time.Millisecond)
			}
		})
		fmt.Println("the proxy has ended")
		os.Exit(3)
	}
	os.Exit(m.Run())
}

// instance is a proxy with its own trace agent.
type instance struct {
	*svc.Svc
	agent  *agent.Agent
	cmd    *exec.Cmd
	output string
	held   string // this file is there when the proxy is held up

	mu    sync.Mutex
	ended bool
	stop  bool // wanted
}

type world struct {
	r       *rep.R
	dir     string
	cluster *kafka.Cluster
	topic   string
	group   string
	seq     int
	all     []*instance
}

func (w *world) gate() string { return filepath.Join(w.dir, "gate") }

// hold lets all proxies stop at the next span they want to pass on.
func (w *world) hold() {
	for _, in := range w.alive() {
		_ = os.Remove(in.held)
	}
	if err := os.WriteFile(w.gate(), nil, 0o600); err != nil {
		w.r.Abort("gate: %v", err)
	}
	for deadline := time.Now().Add(15 * time.Second); time.Now().Before(deadline); time.Sleep(10 * time.Millisecond) {
		n := 0
		for _, in := range w.alive() {
			if _, err := os.Stat(in.held); err == nil {
				n++
			}
		}
		if n == len(w.alive()) {
			w.r.Count("times all proxies were held up", 1)
			return
		}
	}
	w.r.Count("times only some proxies were held up", 1)
}

func (w *world) release() { _ = os.Remove(w.gate()) }

func (w *world) start() *instance {
	a, err := agent.Start()
	if err != nil {
		w.r.Abort("agent: %v", err)
	}
	in := &instance{Svc: &svc.Svc{}, agent: a}
	in.Addr = fmt.Sprintf("127.0.0.1:%d", svc.FreePort())
	in.Client = svc.NewClient(64)
	args := []string{"--http-address", in.Addr, "--log-file", "/dev/null", "--trace-host", "127.0.0.1", "--trace-port", strconv.Itoa(a.Port),
		"--kafka-disable-tls", "--kafka-topic", w.topic, "--kafka-consumer-group", w.group}
	for _, addr := range w.cluster.Addrs() {
		args = append(args, "--kafka-address", addr)
	}
	exe, err := os.Executable()
	if err != nil {
		w.r.Abort("executable: %v", err)
	}
	w.seq++
	in.output = filepath.Join(w.dir, fmt.Sprintf("proxy-%d", w.seq))
	out, err := os.Create(in.output)
	if err != nil {
		w.r.Abort("output: %v", err)
	}
	in.cmd = exec.Command(exe)
	in.held = in.output + ".held"
	in.cmd.Env = append(os.Environ(), "VERIF_PROXY_ARGS="+strings.Join(args, "\n"), "VERIF_PROXY_GATE="+w.gate(), "VERIF_PROXY_HELD="+in.held)
	in.cmd.Stdout, in.cmd.Stderr = out, out
	if err := in.cmd.Start(); err != nil {
		w.r.Abort("start: %v", err)
	}
	out.Close()
	w.all = append(w.all, in)
	go func() {
		err := in.cmd.Wait()
		in.mu.Lock()
		in.ended = true
		stop := in.stop
		in.mu.Unlock()
		if stop {
			return
		}
		text, _ := os.ReadFile(in.output)
		if bytes.Contains(text, []byte("address already in use")) {
			w.r.Abort("port is taken: %s", text)
		}
		if p := w.cluster.Problems(); len(p) > 0 {
			w.r.Abort("the broker did not understand the proxy: %v", p)
		}
		w.r.Fatal("ended", fmt.Sprintf("a proxy has ended: %v", err), string(text[:min(len(text), 20000)]))
	}()
	for deadline := time.Now().Add(60 * time.Second); ; {
		resp, err := in.Client.Get("http://" + in.Addr + "/admin/ping")
		if err == nil {
			resp.Body.Close()
			return in
		}
		if time.Now().After(deadline) {
			w.r.Abort("the proxy did not start: %v, %v", err, w.cluster.Problems())
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func (w *world) kill(in *instance) {
	in.mu.Lock()
	in.stop = true
	in.mu.Unlock()
	_ = in.cmd.Process.Kill()
	for {
		in.mu.Lock()
		ended := in.ended
		in.mu.Unlock()
		if ended {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func (w *world) alive() (res []*instance) {
	for _, in := range w.all {
		if !in.stop {
			res = append(res, in)
		}
	}
	return res
}

// stable waits until all living proxies are members and all partitions are being read.
func (w *world) stable() {
	n := len(w.alive())
	for deadline := time.Now().Add(90 * time.Second); !w.cluster.Stable(w.group, w.topic, n); time.Sleep(50 * time.Millisecond) {
		if p := w.cluster.Problems(); len(p) > 0 {
			w.r.Abort("the broker did not understand a proxy: %v", p)
		}
		if time.Now().After(deadline) {
			w.r.Abort("the consumer group with %d proxies does not become stable", n)
		}
	}
	w.r.Count("stable groups", 1)
}

// requests returns what all agents got and which requests came to which agent.
func (w *world) requests() (res []agent.Request, owner []int) {
	for i, in := range w.all {
		for _, req := range in.agent.Requests() {
			res = append(res, req)
			owner = append(owner, i)
		}
	}
	return res, owner
}

func Test(t *testing.T) {
	rep.Run(t, "C29", "two or three proxies (processes with race detector) share a topic of a recording broker, each has its own recording agent; traces are spread over requests to any of them, undecodable records are mixed in, proxies are killed and added in between; ledgers compare posts, records and what the agents got; distinct by trace, nontrivial if it has more than one span", func(r *rep.R) {
		r.WatchCPU(900 * time.Second)
		r.Need("spans at the agents", r.N(3000, 30000))
		r.Need("traces posted to several proxies", 200)
		r.Need("undecodable records", 20)
		r.Need("records of more than 100 kB", 2)
		dir := os.Getenv("VERIF_SCRATCH")
		if dir == "" {
			dir = t.TempDir()
		}
		for round := 0; round < r.N(1, 12); round++ {
			run(r, dir, round)
			r.Count("rounds", 1)
		}
	})
}

func run(r *rep.R, dir string, round int) {
	rng := r.Rand("round", round)
	w := &world{r: r, dir: dir, topic: []string{"zipkin-spans", "spans.of-all"}[rng.IntN(2)], group: []string{"zipkin-proxy", "g"}[rng.IntN(2)]}
	var err error
	w.cluster, err = kafka.Start(1+rng.IntN(3), map[string]int32{"other": 3})
	if err != nil {
		r.Abort("broker: %v", err)
	}
	defer func() {
		w.release()
		for _, in := range w.alive() {
			w.kill(in)
		}
		for i := 0; i < w.cluster.Nodes(); i++ {
			w.cluster.Down(i)
		}
		for _, in := range w.all {
			in.agent.Down()
		}
	}()
	for n := 2 + rng.IntN(2); n > 0; n-- {
		w.start()
	}

	ids := svc.NewIds(r.Rand("ids", round))
	ledger := &svc.Ledger{Traces: map[proxy.Id]*svc.Trace{}, Limit: 2500 * time.Millisecond}
	var ledgerMu sync.Mutex
	seenAt := map[proxy.Id]map[*svc.Svc]bool{}

	phase := func(name string, seconds, hold int) {
		r.Progress(fmt.Sprintf("round %d: %s", round, name))
		w.stable()
		var targets []*svc.Svc
		for _, in := range w.alive() {
			targets = append(targets, in.Svc)
		}
		var all []*svc.Trace
		parts := w.cluster.Partitions(w.topic)
		stop := make(chan struct{})
		var injected sync.WaitGroup
		injected.Add(1)
		irng := r.Rand("inject", round, name)
		go func() {
			// somebody puts other things on the topic
			defer injected.Done()
			for {
				var kvs []kafka.KV
				for n := 1 + irng.IntN(3); n > 0; n-- {
					good, _ := avro.Encode(proxy.Span{Id: 5, Trace: proxy.Id(irng.Uint64()), Name: "a name", Service: "a service", Timestamp: 77, Duration: 1 << 40}, irng)
					bad := avro.Garbage(irng, good)
					if len(bad) == 0 && irng.IntN(2) == 0 {
						bad = nil
					}
					kvs = append(kvs, kafka.KV{Key: [][]byte{nil, {}, {1, 2, 3, 4, 5, 6, 7, 8}}[irng.IntN(3)], Value: bad})
				}
				w.cluster.Inject(w.topic, irng.IntN(parts), kvs)
				r.Count("undecodable records", len(kvs))
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(irng.IntN(200)) * time.Millisecond):
				}
			}
		}()
		for i := 0; i < seconds; i++ {
			if i == hold && i > 0 {
				// what was posted so far comes out, and nothing goes on from then. More comes in than the channels can hold.
				w.hold()
				go func() {
					// it takes two seconds until a span has passed the topic
					time.Sleep(4500 * time.Millisecond)
					w.release()
				}()
			}
			began := time.Now()
			traces, posts := svc.Batch(rng, ids, name, 120+rng.IntN(60))
			if i == hold && i > 0 {
				more, posts2 := svc.Batch(rng, ids, name, 300)
				traces, posts = append(traces, more...), append(posts, posts2...)
			}
			ledgerMu.Lock()
			for _, t := range traces {
				ledger.Traces[t.Id] = t
				r.Eval(uint64(t.Id), len(t.Want) > 1)
			}
			ledgerMu.Unlock()
			all = append(all, traces...)
			// split the posts, so that it is known where they go
			share := make([][]svc.Post, len(targets))
			for _, p := range posts {
				k := rng.IntN(len(targets))
				share[k] = append(share[k], p)
				for _, t := range p.Traces {
					if seenAt[t.Id] == nil {
						seenAt[t.Id] = map[*svc.Svc]bool{}
					}
					seenAt[t.Id][targets[k]] = true
				}
			}
			var wg sync.WaitGroup
			for k, target := range targets {
				wg.Add(1)
				prng := r.Rand("send", round, name, i, k)
				clients := []int{1, 4, 16}[rng.IntN(3)]
				go func() {
					defer wg.Done()
					problem, timeout := svc.Send(prng, []*svc.Svc{target}, clients, share[k])
					if timeout {
						r.Fatal("no-answer", "a proxy does not answer: "+problem, name)
					} else if problem != "" {
						// the end of a proxy is reported by whoever waits for it
						time.Sleep(300 * time.Millisecond)
						r.Fatal("not-accepted", "phase "+name+": "+problem, nil)
					}
				}()
			}
			wg.Wait()
			r.Count("posts", len(posts))
			if i == 0 && name == "first" {
				r.Sample(string(posts[0].Body))
			}
			time.Sleep(700*time.Millisecond - time.Since(began))
		}
		close(stop)
		injected.Wait()
		for deadline := time.Now().Add(45 * time.Second); time.Now().Before(deadline); time.Sleep(200 * time.Millisecond) {
			reqs, _ := w.requests()
			if svc.Arrived(all, reqs) {
				break
			}
		}
		r.Count("phases", 1)
	}

	// committed waits until everything is acknowledged, so that nothing is delivered again after a rebalance
	committed := func() {
		last := map[int32]int64{}
		for _, rec := range w.cluster.Records(0) {
			if _, _, err := avro.Decode(rec.Value); err == nil && rec.Topic == w.topic {
				last[rec.Partition] = rec.Offset + 1
			}
		}
		for deadline := time.Now().Add(20 * time.Second); ; time.Sleep(100 * time.Millisecond) {
			missing := 0
			for part, offset := range last {
				if w.cluster.Offset(w.group, w.topic, part) < offset {
					missing++
				}
			}
			if missing == 0 {
				return
			}
			if time.Now().After(deadline) {
				if !r.Violated() {
					r.Inconclusive("messages of %d partitions are not acknowledged", missing)
				}
				return
			}
		}
	}

	phase("first", 4, 2)
	committed()
	if rng.IntN(2) == 0 || r.Thorough {
		// lists that were sent may still be on their way otherwise
		time.Sleep(1500 * time.Millisecond)
		alive := w.alive()
		w.kill(alive[rng.IntN(len(alive))])
		r.Count("proxies killed", 1)
		if r.Thorough {
			phase("after the end of a proxy", 4, 2)
			committed()
		}
	}
	w.start()
	r.Count("proxies added", 1)
	phase("after a proxy was added", 3, 0)
	time.Sleep(2500 * time.Millisecond)

	if p := w.cluster.Problems(); len(p) > 0 {
		r.Abort("the broker did not understand a proxy: %v", p)
	}
	reqs, owner := w.requests()
	findings := ledger.Check(reqs, func(string) bool { return true })
	if ledger.BrokenRequests > 0 && len(findings) > 0 {
		r.Inconclusive("%d requests arrived broken at the agents", ledger.BrokenRequests)
		findings = nil
	}

	// which proxy dealt with a trace
	by := map[proxy.Id]map[int]bool{}
	load := map[int]int{}
	for i, req := range reqs {
		for _, list := range req.Traces {
			for _, s := range list {
				if by[s.Trace] == nil {
					by[s.Trace] = map[int]bool{}
				}
				by[s.Trace][owner[i]] = true
				load[owner[i]]++
			}
		}
	}
	for id, proxies := range by {
		if len(proxies) > 1 {
			r.Violate("shared", fmt.Sprintf("spans of one trace were processed by %d proxies", len(proxies)), fmt.Sprintf("%x", uint64(id)))
		}
	}
	for _, n := range load {
		if n > 0 {
			r.Count("proxies with work", 1)
		}
	}
	for _, f := range findings {
		r.Violate(f.Sig, f.Message, f.Witness)
	}

	// what was published
	type pub struct {
		n         int
		partition map[int32]bool
	}
	published := map[agent.Key]*pub{}
	keys := map[proxy.Id]string{}
	for _, rec := range w.cluster.Records(0) {
		witness := map[string]any{"topic": rec.Topic, "key": hex.EncodeToString(rec.Key), "value": hex.EncodeToString(rec.Value)}
		span, n, err := avro.Decode(rec.Value)
		if err != nil || n != len(rec.Value) || rec.Topic != w.topic {
			r.Violate("record", fmt.Sprintf("a proxy published something else than a span to the topic %q: %v", rec.Topic, err), witness)
			continue
		}
		r.Count("records", 1)
		if len(rec.Value) > 100_000 {
			r.Count("records of more than 100 kB", 1)
		}
		t := ledger.Traces[span.Trace]
		if t == nil {
			r.Violate("record-unknown", "a proxy published a span that nobody sent", witness)
			continue
		}
		want, ok := t.Want[span.Id]
		if !ok {
			r.Violate("record-unknown", "a proxy published a span that nobody sent", witness)
			continue
		}
		if h, halves := t.Halves[span.Id]; halves {
			if ref.Diff([]proxy.Span{span}, h[:1]) != "" && ref.Diff([]proxy.Span{span}, h[1:]) != "" {
				r.Violate("record-content", "a proxy published a changed span: "+ref.Diff([]proxy.Span{span}, h[:1]), witness)
			}
		} else if d := ref.Diff([]proxy.Span{span}, []proxy.Span{want}); d != "" {
			r.Violate("record-content", "a proxy published a changed span: "+d, witness)
		}
		if k, ok := keys[span.Trace]; ok && k != string(rec.Key) {
			r.Violate("record-key", "spans of one trace were published with different keys", witness)
		}
		keys[span.Trace] = string(rec.Key)
		k := agent.Key{Trace: span.Trace, Id: span.Id}
		if published[k] == nil {
			published[k] = &pub{partition: map[int32]bool{}}
		}
		published[k].n++
		published[k].partition[rec.Partition] = true
	}
	several, late := 0, 0
	for _, t := range ledger.Traces {
		if len(seenAt[t.Id]) > 1 {
			several++
		}
		if t.Spread() >= ledger.Limit {
			late++
		}
		for id, want := range t.Want {
			n := 1
			if _, ok := t.Halves[id]; ok {
				n = 2
			}
			p := published[agent.Key{Trace: t.Id, Id: id}]
			got := 0
			if p != nil {
				got = p.n
			}
			if got != n {
				r.Violate("published", fmt.Sprintf("a span that was accepted %d times was published %d times", n, got), ref.Canon(want))
			}
		}
	}
	if late > len(ledger.Traces)/20 {
		r.Inconclusive("%d of %d traces were posted too slowly", late, len(ledger.Traces))
	}
	r.Count("traces", len(ledger.Traces))
	r.Count("traces posted too slowly to be judged", late)
	r.Count("traces posted to several proxies", several)
	r.Count("spans at the agents", ledger.Spans)
	r.Count("merged spans at the agents", ledger.Merged)
	r.Count("brokers", w.cluster.Nodes())
	_, requests, _ := w.cluster.Counts()
	for _, k := range []string{"Produce", "Fetch", "JoinGroup", "OffsetCommit"} {
		r.Count("kafka requests: "+k, requests[k])
	}
}
