package c31

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/julienschmidt/httprouter"
	"github.com/sirupsen/logrus"

	"verif/harness/lib/agent"
	"verif/harness/lib/avro"
	"verif/harness/lib/dict"
	"verif/harness/lib/gen"
	"verif/harness/lib/kafka"
	"verif/harness/lib/rep"
	"verif/harness/lib/svc"
)

// spec is what a child process has to run.
type spec struct {
	Args    []string
	Routing string
}

// TestMain lets the binary be one of the proxies.
func TestMain(m *testing.M) {
	if text := os.Getenv("VERIF_PROXY_SPEC"); text != "" {
		var s spec
		if err := json.Unmarshal([]byte(text), &s); err != nil {
			panic(err)
		}
		logrus.SetOutput(io.Discard)
		os.Args = append([]string{"proxy"}, s.Args...)
		converter := func(span proxy.Span) (proxy.Span, error) { return span, nil }
		if s.Routing == "" {
			zipkinproxy.Main(converter)
		} else {
			zipkinproxy.MainWithRouting(routing(s.Routing), converter)
		}
		fmt.Println("the proxy has ended")
		os.Exit(3)
	}
	os.Exit(m.Run())
}

// routing is how somebody could extend the proxy.
func routing(kind string) zipkinproxy.Routing {
	return func(router *httprouter.Router) http.Handler {
		router.GET("/custom/hello/:name", func(w http.ResponseWriter, req *http.Request, params httprouter.Params) {
			_, _ = io.WriteString(w, "hello "+params.ByName("name"))
		})
		router.POST("/custom/echo", func(w http.ResponseWriter, req *http.Request, _ httprouter.Params) {
			body, err := io.ReadAll(req.Body)
			if err != nil {
				w.WriteHeader(http.StatusBadRequest)
				return
			}
			w.Header().Set("X-Encoding", req.Header.Get("Content-Encoding"))
			w.Header().Set("X-Kept", req.Header.Get("X-Kept"))
			w.WriteHeader(http.StatusOK)
			_, _ = w.Write(body)
		})
		switch kind {
		case "routes":
			return router
		case "wrap":
			// looks at everything before the routes do
			return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
				if req.Header.Get("X-Reject") != "" {
					body, _ := io.ReadAll(req.Body)
					w.WriteHeader(http.StatusTeapot)
					_, _ = w.Write(body)
					return
				}
				w.Header().Set("X-Wrapped", "yes")
				router.ServeHTTP(w, req)
			})
		case "prefix":
			stripped := http.StripPrefix("/zipkin", router)
			return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
				if strings.HasPrefix(req.URL.Path, "/zipkin/") {
					stripped.ServeHTTP(w, req)
				} else {
					router.ServeHTTP(w, req)
				}
			})
		}
		panic(kind)
	}
}

type options struct {
	agentHost   string // as given to the proxy, "" if it is not
	agentAddr   string // where the agent listens
	defaultPort bool
	kafka       bool
	topic       string // "" if not given
	group       string
	addresses   []string
	logArgs     []string
	logFile     string
	logTraces   string // the environment variable
	routing     string
	profile     bool
	user, pass  string
	statsd      bool
	http        string // host part of the address to listen on
	env         []string
}

var variable = regexp.MustCompile(`\b[A-Z][A-Z0-9_]{3,}\b`)

// environment sets variables that others look at, or that the source has come to mention.
func (w *world) environment(o *options) {
	names := []string{"DD_AGENT_HOST", "DD_TRACE_AGENT_PORT", "DD_TRACE_AGENT_HOSTNAME", "DD_TRACE_AGENT_URL", "DATADOG_TRACE_AGENT_HOSTNAME", "DATADOG_TRACE_AGENT_PORT", "TRACE_HOST", "TRACE_PORT",
		"KAFKA_TOPIC", "KAFKA_CONSUMER_GROUP", "KAFKA_ADDRESS", "KAFKA_ADDRESSES", "LOG_LEVEL", "VERBOSE", "DEBUG", "DD_TRACE_ENABLED", "DD_TRACE_DEBUG", "DD_DOGSTATSD_PORT", "STATSD_HOST", "PORT", "HOST", "HOSTNAME"}
	for _, text := range dict.Get().New.Strings {
		for _, name := range variable.FindAllString(text, -1) {
			if name != "DD_LOG_TRACES" {
				names = append(names, name)
			}
		}
	}
	for _, name := range names {
		value := []string{"true", "false", "1", "0", "other", "debug"}[w.rng.IntN(6)]
		if w.rng.IntN(2) == 0 {
			value = "127.0.0.77"
			if strings.Contains(name, "PORT") {
				value = "8126"
			} else if strings.Contains(name, "URL") {
				value = "http://127.0.0.77:8126"
			}
		}
		o.env = append(o.env, name+"="+value)
	}
	w.r.Count("proxies with other environments", 1)
}

func (o options) topicName() string {
	if o.topic == "" {
		return "zipkin-spans"
	}
	return o.topic
}

func (o options) groupName() string {
	if o.group == "" {
		return "zipkin-proxy"
	}
	return o.group
}

// instance is a proxy with its own trace agent, and one that it has nothing to do with.
type instance struct {
	*svc.Svc
	o      options
	args   []string
	agent  *agent.Agent
	decoy  *agent.Agent
	statsd *statsd
	cmd    *exec.Cmd
	output string
	done   chan struct{}
	err    error

	ledger *svc.Ledger // what is to come to its agent
	path   string      // before the paths of the endpoints
	wrong  int         // the answers to requests that were refused by the custom routing
}

func (in *instance) ended() bool {
	select {
	case <-in.done:
		return true
	default:
		return false
	}
}

// statsd collects what is sent to a socket.
type statsd struct {
	conn  net.PacketConn
	mu    sync.Mutex
	names map[string]bool
}

func listen() (*statsd, error) {
	conn, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &statsd{conn: conn, names: map[string]bool{}}
	go func() {
		buf := make([]byte, 65536)
		for {
			n, _, err := conn.ReadFrom(buf)
			if err != nil {
				return
			}
			s.mu.Lock()
			for _, line := range strings.Split(string(buf[:n]), "\n") {
				if name, _, ok := strings.Cut(line, ":"); ok {
					s.names[name] = true
				}
			}
			s.mu.Unlock()
		}
	}()
	return s, nil
}

func (s *statsd) has(prefix string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	for name := range s.names {
		if strings.HasPrefix(name, prefix) {
			return true
		}
	}
	return false
}

type world struct {
	r       *rep.R
	n       int
	dir     string
	rng     *rand.Rand
	cluster *kafka.Cluster
	all     []*instance
	ids     *svc.Ids
}

// witness describes a proxy.
func (in *instance) witness(x any) any {
	return map[string]any{"args": in.args, "environment": in.o.env, "DD_LOG_TRACES": in.o.logTraces, "routing": in.o.routing, "found": x}
}

func (w *world) start(o options) *instance {
	in := &instance{Svc: &svc.Svc{}, o: o, done: make(chan struct{}), ledger: &svc.Ledger{Traces: map[proxy.Id]*svc.Trace{}, Limit: 2500 * time.Millisecond}}
	port := 0
	if o.defaultPort {
		port = 8126
	}
	var err error
	low := port == 0 && w.rng.IntN(3) == 0
	for try := 0; in.decoy == nil && try < 20; try++ {
		if low {
			port = agent.LowPort(o.agentAddr)
		}
		if in.agent, err = agent.StartAt(o.agentAddr, port); err != nil && low {
			port, low = 0, false
			continue
		} else if err != nil {
			w.r.Abort("agent: %v", err)
		}
		// nobody is told of this one
		if in.decoy, err = agent.StartAt("127.0.0.77", in.agent.Port); err != nil {
			in.agent.Down()
			in.decoy = nil
		}
	}
	if in.decoy == nil {
		w.r.Abort("agent: %v", err)
	}
	if in.agent.Port < 1024 {
		w.r.Count("agents with a port below 1024", 1)
	}
	httpPort := svc.FreePort()
	in.Addr = fmt.Sprintf("127.0.0.1:%d", httpPort)
	in.Client = svc.NewClient(64)
	pairs := [][]string{{"--http-address", fmt.Sprintf("%s:%d", o.http, httpPort)}}
	if o.agentHost != "" {
		pairs = append(pairs, []string{"--trace-host", o.agentHost})
	}
	if !o.defaultPort {
		pairs = append(pairs, []string{"--trace-port", strconv.Itoa(in.agent.Port)})
	}
	if o.kafka {
		pairs = append(pairs, []string{"--kafka-disable-tls"})
		if o.topic != "" {
			pairs = append(pairs, []string{"--kafka-topic", o.topic})
		}
		if o.group != "" {
			pairs = append(pairs, []string{"--kafka-consumer-group=" + o.group})
		}
		for _, addr := range o.addresses {
			pairs = append(pairs, []string{"--kafka-address", addr})
		}
	}
	for _, arg := range o.logArgs {
		pairs = append(pairs, []string{arg})
	}
	w.n++
	in.output = filepath.Join(w.dir, fmt.Sprintf("proxy-%d", w.n))
	log := "/dev/null"
	if o.logFile != "" {
		log = in.output + ".log"
		in.o.logFile = log
	}
	pairs = append(pairs, []string{"--log-file", log})
	if o.profile {
		pairs = append(pairs, []string{"--profile"})
	}
	if o.user != "" {
		pairs = append(pairs, []string{"--http-admin-username", o.user}, []string{"--http-admin-password", o.pass})
	}
	if o.statsd {
		if in.statsd, err = listen(); err != nil {
			w.r.Abort("statsd: %v", err)
		}
		pairs = append(pairs, []string{"--datadog-statsd-address", in.statsd.conn.LocalAddr().String()}, []string{"--datadog-report-interval", "1s"})
	}
	w.rng.Shuffle(len(pairs), func(i, k int) { pairs[i], pairs[k] = pairs[k], pairs[i] })
	for _, p := range pairs {
		in.args = append(in.args, p...)
	}
	text, _ := json.Marshal(spec{in.args, o.routing})
	exe, err := os.Executable()
	if err != nil {
		w.r.Abort("executable: %v", err)
	}
	out, err := os.Create(in.output)
	if err != nil {
		w.r.Abort("output: %v", err)
	}
	in.cmd = exec.Command(exe)
	in.cmd.Env = append(os.Environ(), "VERIF_PROXY_SPEC="+string(text), "TMPDIR="+w.dir)
	if o.logTraces != "" {
		in.cmd.Env = append(in.cmd.Env, "DD_LOG_TRACES="+o.logTraces)
	}
	if o.agentHost != "" && !o.defaultPort && (!o.kafka || o.topic != "" && o.group != "") {
		// what is not in the options may have another default
		if w.rng.IntN(4) > 0 {
			w.environment(&o)
			in.o.env = o.env
		}
	}
	in.cmd.Env = append(in.cmd.Env, o.env...)
	in.cmd.Stdout, in.cmd.Stderr = out, out
	in.cmd.Dir = w.dir
	in.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := in.cmd.Start(); err != nil {
		w.r.Abort("start: %v", err)
	}
	out.Close()
	w.all = append(w.all, in)
	go func() {
		in.err = in.cmd.Wait()
		close(in.done)
	}()
	return in
}

// failed deals with a proxy that has ended, it must not have.
func (w *world) failed(in *instance) {
	text, _ := os.ReadFile(in.output)
	if bytes.Contains(text, []byte("address already in use")) {
		w.r.Abort("port is taken: %s", text)
	}
	w.problems()
	w.r.Fatal("ended", fmt.Sprintf("a proxy has ended: %v", in.err), in.witness(string(text[:min(len(text), 20000)])))
}

func (w *world) problems() {
	if w.cluster != nil {
		if p := w.cluster.Problems(); len(p) > 0 {
			w.r.Abort("the broker did not understand a proxy: %v", p)
		}
	}
}

// ready waits until the proxies listen and their consumers have begun.
func (w *world) ready(ins ...*instance) {
	for _, in := range ins {
		for deadline := time.Now().Add(100 * time.Second); ; time.Sleep(20 * time.Millisecond) {
			resp, err := in.Client.Get("http://" + in.Addr + "/admin/ping")
			if err == nil {
				resp.Body.Close()
				break
			}
			if in.ended() {
				w.failed(in)
			}
			if time.Now().After(deadline) {
				w.problems()
				w.r.Abort("a proxy did not start: %v %v", in.args, err)
			}
		}
	}
	if w.cluster == nil {
		return
	}
	readers, members := map[string]int{}, map[string]int{}
	for _, in := range w.all {
		if in.o.kafka {
			readers[in.o.topicName()]++
			members[in.o.groupName()]++
		}
	}
	for deadline := time.Now().Add(90 * time.Second); ; time.Sleep(50 * time.Millisecond) {
		ok := true
		for t, n := range readers {
			ok = ok && w.cluster.Readers(t) >= n
		}
		got := w.cluster.Groups()
		for g, n := range members {
			ok = ok && got[g] == n
		}
		if ok {
			return
		}
		for _, in := range w.all {
			if in.ended() {
				w.failed(in)
			}
		}
		if time.Now().After(deadline) {
			w.problems()
			// another group or topic, most probably
			for g := range got {
				if members[g] == 0 {
					w.r.Violate("group", fmt.Sprintf("consumer group %q is used instead of %v", g, members), w.all[0].witness(nil))
				}
			}
			for _, t := range w.cluster.Topics() {
				if readers[t] == 0 {
					w.r.Violate("topic", fmt.Sprintf("the topic %q is consumed instead of %v", t, readers), w.all[0].witness(nil))
				}
			}
			for t := range readers {
				if w.cluster.Partitions(t) == 0 {
					w.r.Violate("created", fmt.Sprintf("the topic %q does not exist and is not created", t), w.all[0].witness(nil))
				}
			}
			if w.r.Violated() {
				return
			}
			w.r.Abort("the consumers do not become ready: groups %v, wanted %v", got, members)
		}
	}
}

func (w *world) close() {
	for _, in := range w.all {
		_ = in.cmd.Process.Kill()
		<-in.done
		in.agent.Down()
		in.decoy.Down()
		if in.statsd != nil {
			_ = in.statsd.conn.Close()
		}
	}
	if w.cluster != nil {
		for i := 0; i < w.cluster.Nodes(); i++ {
			w.cluster.Down(i)
		}
	}
}

// receivers returns the proxies to whose agents a span comes that is posted to this one.
func (w *world) receivers(in *instance) (res []*instance) {
	if !in.o.kafka {
		return []*instance{in}
	}
	for _, other := range w.all {
		if other.o.kafka && other.o.topicName() == in.o.topicName() {
			res = append(res, other)
		}
	}
	return res
}

// post sends traces to all proxies.
func (w *world) post(phase string, traces int) (all map[*instance][]*svc.Trace) {
	all = map[*instance][]*svc.Trace{}
	done := map[*instance]bool{}
	for _, in := range w.all {
		if done[in] {
			continue
		}
		rcv := w.receivers(in)
		var targets []*instance
		for _, x := range rcv {
			done[x] = true
			targets = append(targets, x)
		}
		ts, posts := svc.Batch(w.rng, w.ids, phase, traces)
		for _, size := range []int{30_000, 70_000 + w.rng.IntN(100_000), 1_200_000} {
			t, p := svc.Big(w.rng, w.ids, phase, size)
			ts, posts = append(ts, t), append(posts, p)
			w.r.Count("bytes of large documents", size)
		}
		for _, t := range ts {
			for _, x := range rcv {
				x.ledger.Traces[t.Id] = t
				all[x] = append(all[x], t)
			}
		}
		share := map[*instance][]svc.Post{}
		for _, p := range posts {
			k := targets[w.rng.IntN(len(targets))]
			if k.path != "" && w.rng.IntN(2) == 0 {
				p.Format.Path = k.path + p.Format.Path
			}
			share[k] = append(share[k], p)
		}
		var wg sync.WaitGroup
		for k, ps := range share {
			wg.Add(1)
			prng := rand.New(rand.NewPCG(w.rng.Uint64(), 1))
			clients := []int{1, 4, 16}[w.rng.IntN(3)]
			go func() {
				defer wg.Done()
				problem, timeout := svc.Send(prng, []*svc.Svc{k.Svc}, clients, ps)
				if problem != "" {
					time.Sleep(300 * time.Millisecond)
					if k.ended() {
						w.failed(k)
					}
					if timeout {
						w.r.Fatal("no-answer", "a proxy does not answer: "+problem, k.witness(phase))
					}
					w.r.Fatal("not-accepted", "phase "+phase+": "+problem, k.witness(phase))
				}
			}()
		}
		wg.Wait()
		w.r.Count("posts", len(posts))
	}
	return all
}

var spanId = regexp.MustCompile(`span_id\\*": *(\d+)`)

// logged returns how often the spans were written to the log.
func (in *instance) logged() map[uint64]int {
	res := map[uint64]int{}
	text, _ := os.ReadFile(in.o.logFile)
	for _, m := range spanId.FindAllSubmatch(text, -1) {
		id, _ := strconv.ParseUint(string(m[1]), 10, 64)
		res[id]++
	}
	return res
}

func (in *instance) arrived(traces []*svc.Trace) bool {
	if in.o.logTraces == "true" {
		got := in.logged()
		for _, t := range traces {
			for id := range t.Want {
				if got[uint64(id)] == 0 {
					return false
				}
			}
		}
		return true
	}
	return svc.Arrived(traces, in.agent.Requests())
}

func (w *world) check() {
	r := w.r
	all := w.post("first", 20+w.rng.IntN(20))
	// what somebody else does on the cluster is nobody's business
	w.noise("")
	for _, in := range w.all {
		if in.o.routing != "" {
			w.custom(in)
		}
		w.admin(in)
	}
	more := w.post("second", 5+w.rng.IntN(10))
	for deadline := time.Now().Add(45 * time.Second); time.Now().Before(deadline); time.Sleep(200 * time.Millisecond) {
		missing := false
		for _, in := range w.all {
			missing = missing || !in.arrived(append(append([]*svc.Trace{}, all[in]...), more[in]...))
		}
		if !missing {
			break
		}
	}
	if w.cluster != nil && w.rng.IntN(2) == 0 {
		// nothing gets around the topic
		time.Sleep(1500 * time.Millisecond)
		w.cluster.Set(kafka.Silent, 0)
		for _, in := range w.all {
			if !in.o.kafka {
				continue
			}
			ts, posts := svc.Batch(w.rng, w.ids, "past", 5)
			_, _ = ts, posts
			if problem, _ := svc.Send(w.rng, []*svc.Svc{in.Svc}, 4, posts); problem != "" {
				if in.ended() {
					w.failed(in)
				}
				r.Fatal("not-accepted", "while the brokers do not answer: "+problem, in.witness(nil))
			}
			r.Count("traces that could not pass the topic", len(ts))
		}
		time.Sleep(6 * time.Second)
	}
	time.Sleep(2300 * time.Millisecond)

	for _, in := range w.all {
		if in.ended() {
			w.failed(in)
		}
		w.judge(in)
	}
	if w.cluster != nil {
		w.brokers()
	}
	w.problems()
}

func (w *world) judge(in *instance) {
	r := w.r
	total := 0
	for _, t := range in.ledger.Traces {
		r.Eval(uint64(t.Id), len(t.Want) > 1)
		total += len(t.Want)
	}
	for _, req := range in.decoy.Requests() {
		r.Violate("decoy", "another agent than the one in the options got a request", in.witness(req))
	}
	if in.o.logTraces == "true" {
		r.Count("proxies that write traces to the log", 1)
		if n := len(in.agent.Requests()); n > 0 {
			r.Violate("log-and-send", fmt.Sprintf("the agent got %d requests although traces go to the log", n), in.witness(nil))
		}
		got := in.logged()
		for _, t := range in.ledger.Traces {
			if t.Spread() >= in.ledger.Limit {
				continue
			}
			for id, want := range t.Want {
				if got[uint64(id)] == 0 {
					r.Violate("not-logged", "a span is not in the log", in.witness(want))
				}
				r.Count("spans in the log", 1)
			}
		}
	} else {
		for _, f := range in.ledger.Check(in.agent.Requests(), func(string) bool { return true }) {
			if in.ledger.BrokenRequests > 0 {
				r.Inconclusive("%d requests arrived broken at the agents", in.ledger.BrokenRequests)
				break
			}
			r.Violate(f.Sig, f.Message, in.witness(f.Witness))
		}
		r.Count("spans at the agents", in.ledger.Spans)
	}
	late := 0
	for _, t := range in.ledger.Traces {
		if t.Spread() >= in.ledger.Limit {
			late++
		}
	}
	if late > len(in.ledger.Traces)/10 {
		r.Inconclusive("%d of %d traces were posted too slowly", late, len(in.ledger.Traces))
	}
	// the list of recent spans belongs to this proxy
	var list []proxy.Span
	if status, body, err := in.page(in.o.user, in.o.pass, "spans", &list); status != 200 || err != nil {
		r.Violate("admin", fmt.Sprintf("the list of spans was answered %d: %v", status, err), in.witness(string(body[:min(len(body), 2000)])))
	} else {
		seen := map[svc.Key]bool{}
		for _, s := range list {
			seen[svc.Key{Trace: s.Trace, Id: s.Id}] = true
			if t := in.ledger.Traces[s.Trace]; t == nil {
				r.Violate("list-unknown", "the list of spans has one that was not sent to this proxy", in.witness(s))
			}
		}
		missing := 0
		for _, t := range in.ledger.Traces {
			if t.Spread() >= in.ledger.Limit {
				continue
			}
			for id := range t.Want {
				if !seen[svc.Key{Trace: t.Id, Id: id}] {
					missing++
				}
			}
		}
		if missing > 0 && total <= 2048 {
			r.Violate("list-missing", fmt.Sprintf("%d of %d spans are not in the list of spans", missing, total), in.witness(nil))
		}
		r.Count("lists of recent spans", 1)
	}
	if in.statsd != nil {
		for deadline := time.Now().Add(5 * time.Second); !in.statsd.has("zipkin.proxy.spans.parsed") && time.Now().Before(deadline); {
			time.Sleep(50 * time.Millisecond)
		}
		in.statsd.mu.Lock()
		names := in.statsd.names
		if len(names) == 0 {
			r.Violate("metrics", "no metrics are reported", in.witness(nil))
		}
		for name := range names {
			if !strings.HasPrefix(name, "zipkin.proxy.") {
				r.Violate("metrics", fmt.Sprintf("a metric is reported as %q", name), in.witness(nil))
			}
		}
		found := false
		for name := range names {
			found = found || strings.HasPrefix(name, "zipkin.proxy.spans.parsed")
		}
		if !found && len(names) > 0 {
			r.Violate("metrics", "the number of spans is not reported", in.witness(names))
		}
		r.Count("reported metrics", len(names))
		in.statsd.mu.Unlock()
	}
}

func (in *instance) page(user, pass, path string, into any) (status int, body []byte, err error) {
	req, _ := http.NewRequest("GET", "http://"+in.Addr+"/admin/"+path, nil)
	if user == "" {
		user, pass = "admin", "bingo"
	}
	if user != "-" {
		req.SetBasicAuth(user, pass)
	}
	req.Header.Set("Accept", "application/json")
	resp, err := in.Client.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	body, err = io.ReadAll(resp.Body)
	if err == nil && into != nil {
		err = json.Unmarshal(body, into)
	}
	return resp.StatusCode, body, err
}

// admin looks at who gets to see the spans.
func (w *world) admin(in *instance) {
	try := func(user, pass string) {
		status, body, err := in.page(user, pass, "spans", nil)
		if err == nil && status != 401 && status != 403 {
			w.r.Violate("open", fmt.Sprintf("the list of spans was answered %d to somebody without the credentials", status), in.witness(string(body[:min(len(body), 500)])))
		}
		w.r.Count("requests without credentials", 1)
	}
	try("-", "")
	try("admin", "bing")
	if in.o.user != "" {
		try("admin", "bingo")
		try(in.o.user, "bingo")
	}
}

// custom uses the routes that were added.
func (w *world) custom(in *instance) {
	r := w.r
	do := func(method, path, enc string, header map[string]string, body []byte) (int, []byte, http.Header) {
		req, _ := http.NewRequest(method, "http://"+in.Addr+path, bytes.NewReader(body))
		for k, v := range header {
			req.Header.Set(k, v)
		}
		if enc != "" {
			req.Header.Set("Content-Encoding", enc)
		}
		resp, err := in.Client.Do(req)
		if err != nil {
			if in.ended() {
				w.failed(in)
			}
			r.Abort("custom request: %v", err)
		}
		defer resp.Body.Close()
		text, _ := io.ReadAll(resp.Body)
		r.Count("requests to custom routes", 1)
		return resp.StatusCode, text, resp.Header
	}
	bad := func(what string, status int, body []byte) {
		r.Violate("routing", fmt.Sprintf("%s was answered %d", what, status), in.witness(string(body[:min(len(body), 2000)])))
	}
	if status, body, _ := do("GET", in.path+"/custom/hello/joe", "", nil, nil); status != 200 || string(body) != "hello joe" {
		bad("an additional route", status, body)
	}
	for i := 0; i < 12; i++ {
		text := []byte(gen.Text(w.rng))
		for k := w.rng.IntN(12); k > 0 && len(text) < 1<<20; k-- {
			text = append(text, text...)
		}
		if w.rng.IntN(4) == 0 {
			text = nil
		}
		enc, sent, one := "", text, true
		switch w.rng.IntN(4) {
		case 0:
		case 1:
			half := len(text) / 2
			enc, one = "gzip", false
			sent = append(svc.Gzip(1+w.rng.IntN(9), text[:half]), svc.Gzip(1+w.rng.IntN(9), text[half:])...)
		default:
			enc, sent = "gzip", svc.Gzip(1+w.rng.IntN(9), text)
		}
		status, body, header := do("POST", in.path+"/custom/echo", enc, map[string]string{"X-Kept": "kept"}, sent)
		if status != 200 || !bytes.Equal(body, text) {
			bad(fmt.Sprintf("an additional route (%q, %d bytes of %d came back)", enc, len(body), len(text)), status, body)
		} else if header.Get("X-Encoding") != "" {
			bad("an additional route that saw a content encoding", status, body)
		} else if header.Get("X-Kept") != "kept" {
			bad("an additional route that did not see a header", status, body)
		}
		if in.o.routing == "wrap" && header.Get("X-Wrapped") != "yes" {
			bad("a request past the custom handler", status, body)
		}
		if one && enc == "gzip" {
			if status, body, _ := do("POST", in.path+"/custom/echo", enc, nil, sent[:1+w.rng.IntN(len(sent)-1)]); status != 400 {
				bad("a truncated compressed body", status, body)
			}
		}
	}
	if status, body, _ := do("GET", in.path+"/custom/nothing", "", nil, nil); status != 404 {
		bad("a path that does not exist", status, body)
	}
	if in.o.routing == "wrap" {
		// these are not for the proxy
		_, posts := svc.Batch(w.rng, w.ids, "rejected", 3)
		for _, p := range posts {
			enc, plain := "", p.Body
			if p.Gzip {
				enc, plain = "gzip", gunzip(p.Body)
			}
			status, body, _ := do("POST", p.Format.Path, enc, map[string]string{"X-Reject": "1", "Content-Type": p.Format.Type}, p.Body)
			if status != http.StatusTeapot {
				bad("a request that the custom handler rejects", status, body)
			} else if !bytes.Equal(body, plain) {
				bad("a request whose body the custom handler did not see decoded", status, body)
			}
		}
	}
}

func gunzip(b []byte) []byte {
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		panic(err)
	}
	res, err := io.ReadAll(z)
	if err != nil {
		panic(err)
	}
	return res
}

var noiseTopics = []string{"zipkin-spans", "Zipkin-Spans", "zipkin-spans-2", "zipkin", "other"}

// noise puts spans on topics that are not mentioned in the options.
func (w *world) noise(except string) {
	if w.cluster == nil {
		return
	}
	used := map[string]bool{except: true}
	for _, in := range w.all {
		used[in.o.topicName()] = in.o.kafka || used[in.o.topicName()]
	}
	for _, t := range noiseTopics {
		for p := 0; !used[t] && p < w.cluster.Partitions(t); p++ {
			var kvs []kafka.KV
			for n := 1 + w.rng.IntN(5); n > 0; n-- {
				data, _ := avro.Encode(gen.AnySpan(w.rng), w.rng)
				kvs = append(kvs, kafka.KV{Key: []byte{1, 2, 3, 4, 5, 6, 7, 8}, Value: data})
			}
			w.cluster.Inject(t, p, kvs)
			w.r.Count("spans on other topics", len(kvs))
		}
	}
}

// brokers looks at what the cluster was asked for.
func (w *world) brokers() {
	r := w.r
	topics, groups := map[string]*instance{}, map[string]*instance{}
	for _, in := range w.all {
		if in.o.kafka {
			topics[in.o.topicName()] = in
			groups[in.o.groupName()] = in
		}
	}
	args := w.all[0].witness(nil)
	for _, t := range w.cluster.Topics() {
		if topics[t] == nil {
			r.Violate("topic", fmt.Sprintf("the topic %q is consumed", t), args)
		}
	}
	for g := range w.cluster.Groups() {
		if groups[g] == nil {
			r.Violate("group", fmt.Sprintf("the consumer group %q is used", g), args)
		}
	}
	type key struct {
		topic string
		k     agent.Key
	}
	published := map[key]int{}
	for _, rec := range w.cluster.Records(0) {
		span, n, err := avro.Decode(rec.Value)
		if topics[rec.Topic] == nil || err != nil || n != len(rec.Value) {
			r.Violate("record", fmt.Sprintf("something was published to the topic %q: %v", rec.Topic, err), args)
			continue
		}
		published[key{rec.Topic, agent.Key{Trace: span.Trace, Id: span.Id}}]++
		r.Count("records", 1)
	}
	for name, in := range topics {
		for _, t := range in.ledger.Traces {
			for id, want := range t.Want {
				n := 1
				if _, ok := t.Halves[id]; ok {
					n = 2
				}
				if got := published[key{name, agent.Key{Trace: t.Id, Id: id}}]; got != n {
					r.Violate("published", fmt.Sprintf("a span that was accepted %d times was published %d times to the topic %q", n, got, name), in.witness(want))
				}
			}
		}
	}
	asked, created := w.cluster.Specs()
	isNew := map[string]bool{}
	for _, c := range created {
		name, _, _ := strings.Cut(c, ":")
		isNew[name] = true
	}
	for _, s := range asked {
		if topics[s.Name] == nil {
			r.Violate("created", fmt.Sprintf("the topic %q is to be created", s.Name), args)
			continue
		}
		if !isNew[s.Name] {
			continue
		}
		r.Count("topics created", 1)
		if s.Partitions != 12 {
			r.Violate("partitions", fmt.Sprintf("a topic is to be created with %d partitions", s.Partitions), args)
		}
		if s.Config["retention.ms"] != "600000" || s.Config["retention.bytes"] != "67108864" {
			r.Violate("retention", fmt.Sprintf("a topic is to be created with %v", s.Config), args)
		}
		if seg, err := strconv.Atoi(s.Config["segment.bytes"]); err != nil || seg > 64<<20 {
			// only complete segments are deleted
			r.Violate("retention", fmt.Sprintf("a topic is to be created with %v", s.Config), args)
		}
	}
}

// dead is a proxy whose brokers cannot be reached. It must not go on without them.
func (w *world) dead(o options) {
	in := w.start(o)
	_, posts := svc.Batch(w.rng, w.ids, "dead", 3)
	accepted := 0
	for deadline := time.Now().Add(12 * time.Second); time.Now().Before(deadline) && !in.ended(); time.Sleep(100 * time.Millisecond) {
		p := posts[w.rng.IntN(len(posts))]
		enc := ""
		if p.Gzip {
			enc = "gzip"
		}
		in.Client.Timeout = time.Second
		if status, _ := in.Post(p.Format.Path, p.Format.Type, enc, bytes.NewReader(p.Body)); status == 202 {
			accepted++
		}
	}
	if accepted > 0 {
		time.Sleep(5 * time.Second)
	}
	for _, req := range in.agent.Requests() {
		w.r.Violate("past-kafka", "the proxy processed spans itself, although it was to use brokers which cannot be reached", in.witness(req))
	}
	if in.ended() {
		w.r.Count("proxies that ended without brokers", 1)
	}
	w.r.Count("proxies without reachable brokers", 1)
}

var portMu sync.Mutex

func run(r *rep.R, dir string, n int) {
	rng := r.Rand("world", n)
	w := &world{r: r, dir: filepath.Join(dir, fmt.Sprintf("world-%d", n)), rng: rng, ids: svc.NewIds(r.Rand("ids", n))}
	if err := os.MkdirAll(w.dir, 0o700); err != nil {
		r.Abort("scratch: %v", err)
	}
	defer func() {
		w.close()
		_ = os.RemoveAll(w.dir)
	}()

	// every kind comes up in a fixed number of worlds, the rest is random
	kind := []string{"alone", "kafka", "two groups", "two topics", "beside", "kafka", "alone", "dead"}[n%8]
	turn := n / 8

	random := func() options {
		o := options{agentAddr: "127.0.0.1", agentHost: "127.0.0.1", http: "127.0.0.1"}
		switch rng.IntN(5) {
		case 0:
			o.agentAddr, o.agentHost = "127.0.0.2", "127.0.0.2"
		case 1:
			o.agentAddr, o.agentHost = "127.9.8.7", "127.9.8.7"
		case 2:
			o.agentHost = ""
		case 3:
			o.agentHost = "localhost"
		}
		if rng.IntN(3) == 0 {
			o.http = ""
		}
		if rng.IntN(2) == 0 {
			o.logArgs = append(o.logArgs, "--verbose")
			r.Count("verbose proxies", 1)
		}
		if rng.IntN(3) == 0 {
			o.logArgs = append(o.logArgs, "--log-json")
		} else if rng.IntN(3) == 0 {
			o.logArgs = append(o.logArgs, "--log-color")
		}
		if rng.IntN(3) == 0 {
			o.logFile = "yes"
		}
		switch rng.IntN(4) {
		case 0:
			o.logTraces, o.logFile = "true", "yes"
		case 1:
			o.logTraces = []string{"false", "0", "no", "off"}[rng.IntN(4)]
		}
		o.routing = []string{"", "", "routes", "wrap", "prefix"}[rng.IntN(5)]
		o.profile = rng.IntN(8) == 0
		if rng.IntN(2) == 0 {
			o.user, o.pass = fmt.Sprintf("u%d", rng.IntN(100)), fmt.Sprintf("p %d", rng.IntN(100))
		}
		o.statsd = rng.IntN(3) == 0
		return o
	}
	// what has to be there in any case
	first := random()
	switch kind {
	case "alone":
		if n%8 == 6 {
			first.routing = []string{"wrap", "prefix", "routes"}[turn%3]
			first.logTraces, first.logFile = "true", "yes"
		} else {
			first.statsd = true
			first.routing = []string{"prefix", "routes", "wrap"}[turn%3]
			first.logTraces = []string{"false", "0"}[turn%2]
		}
	case "kafka":
		first.logTraces = ""
	}
	if n%8 == 0 || n%8 == 2 && rng.IntN(2) == 0 {
		// all by default, if nobody else has the port
		if portMu.TryLock() {
			defer portMu.Unlock()
			if a, err := agent.StartAt("127.0.0.1", 8126); err == nil {
				a.Down()
				first.agentHost, first.agentAddr, first.defaultPort = "", "127.0.0.1", true
				r.Count("proxies with the default agent", 1)
			}
		}
	}

	withKafka := func(o *options, topic, group string) {
		o.kafka, o.topic, o.group = true, topic, group
		addrs := w.cluster.Addrs()
		rng.Shuffle(len(addrs), func(i, k int) { addrs[i], addrs[k] = addrs[k], addrs[i] })
		o.addresses = addrs[:1+rng.IntN(len(addrs))]
		// some that are not there
		for k := rng.IntN(3); k > 0; k-- {
			at := rng.IntN(len(o.addresses) + 1)
			o.addresses = append(append(append([]string{}, o.addresses[:at]...), fmt.Sprintf("127.0.0.99:%d", svc.FreePort())), o.addresses[at:]...)
			r.Count("addresses without a broker", 1)
		}
	}
	topic := []string{"", "", "spans.of-all", "zipkin-spans-of-x", "Zipkin", "spans-B.Of_All"}[rng.IntN(6)]
	group := []string{"", "", "zipkin-proxy-2", "g"}[rng.IntN(4)]
	if kind != "alone" && kind != "dead" {
		topics := map[string]int32{}
		for _, t := range noiseTopics {
			topics[t] = int32(1 + rng.IntN(4))
		}
		name := options{topic: topic}.topicName()
		delete(topics, name)
		if rng.IntN(2) == 0 {
			topics[name] = []int32{1, 3, 12, 30}[rng.IntN(4)]
			r.Count("topics that exist", 1)
		}
		var err error
		if w.cluster, err = kafka.Start(1+rng.IntN(3), topics); err != nil {
			r.Abort("broker: %v", err)
		}
		w.noise(name)
		withKafka(&first, topic, group)
	}
	switch kind {
	case "dead":
		o := random()
		o.kafka, o.topic, o.group = true, topic, group
		for k := 1 + rng.IntN(3); k > 0; k-- {
			o.addresses = append(o.addresses, fmt.Sprintf("127.0.0.99:%d", svc.FreePort()))
		}
		w.dead(o)
	case "alone", "kafka":
		w.ready(w.start(first))
	case "two groups":
		second := random()
		withKafka(&second, topic, "another-group")
		w.ready(w.start(first), w.start(second))
	case "two topics":
		second := random()
		withKafka(&second, "another-topic", []string{"another-group", group}[rng.IntN(2)])
		w.ready(w.start(first), w.start(second))
	case "beside":
		w.ready(w.start(first), w.start(random()))
	}
	if kind != "dead" {
		for _, in := range w.all {
			if in.o.routing == "prefix" {
				in.path = "/zipkin"
			}
		}
		w.check()
	}
	r.Count("worlds: "+kind, 1)
	r.Count("proxies", len(w.all))
	if n < 3 {
		r.Sample(w.all[0].witness(nil))
	}
}

func Test(t *testing.T) {
	rep.Run(t, "C31", "proxies as processes (race detector) with random options and routing, each with its own recording agent next to one that it was not told of, alone, or with recording brokers on which there are other topics and groups as well; what arrives where is compared with the options; distinct by trace, nontrivial if it has more than one span", func(r *rep.R) {
		r.WatchCPU(900 * time.Second)
		r.Need("spans at the agents", 1500)
		r.Need("spans in the log", 100)
		r.Need("verbose proxies", 4)
		r.Need("requests to custom routes", 60)
		r.Need("records", 500)
		r.Need("topics created", 1)
		r.Need("proxies without reachable brokers", 1)
		r.Need("lists of recent spans", 10)
		dir := os.Getenv("VERIF_SCRATCH")
		if dir == "" {
			dir = t.TempDir()
		}
		work := make(chan int)
		var wg sync.WaitGroup
		for k := 0; k < 12; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := range work {
					run(r, dir, n)
				}
			}()
		}
		for n := 0; n < r.N(24, 240); n++ {
			r.Progress(fmt.Sprintf("world %d", n))
			work <- n
		}
		close(work)
		wg.Wait()
	})
}
