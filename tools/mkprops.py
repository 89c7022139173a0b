import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe,hook_needed=hook)))
def m(n,w): return dict(name=n,where=w)

p("C01","A span POST is accepted whole or rejected whole",
 "A POST to the v1, v2 or Jaeger span endpoint that is answered 202 hands every span encoded in its body to processing exactly once; any other POST there (malformed, truncated or damaged-gzip body, v1 without a JSON content type) is answered 400 and hands over none. A gzip-encoded body is treated exactly like the same body sent plain, for any number of concurrent clients and body sizes. Clients that go away before the answer have their spans taken whole or not at all.",
 ["inputs","schedules","fault_sequences"],"all request bodies, encodings and content types, any interleaving of concurrent requests",
 "There is no HTTP test at all; parsers are run on one literal document each, never behind a handler, never concurrently, never truncated.",
 ["handlers.go","main.go"],[m("decode completely before the first channel send","handlers.go:parseSpansWithJSON"),m("gzip body decoding","handlers.go:handleGzipRequestBody"),m("status mapping","handlers.go:handleSpans")],
 ["HTTP status","spans seen by the span converter of the running service"])

p("C02","Zipkin v1 JSON decodes to exactly the spans it describes",
 "For every well-formed Zipkin v1 JSON document with at most four annotations per span, the decoder returns one span per element, in order, whose ids, parent, name, service, tags, four RPC timings, start and duration (client timings before server timings before explicit values, 1 ms when no duration is known) equal those an independent JSON decoder yields; of several tags with the same key the last one counts. Key order, whitespace, unknown fields, string escapes, literal types of tag values, string lengths and how the input is split into reads do not matter.",
 ["inputs"],"all well-formed v1 documents and all ways a reader can chunk them",
 "One fixed 1 kB document is decoded from one in-memory reader; no escapes, no long strings, no unknown fields, no refill of the parse buffer in the middle of a token.",
 ["codec/json-v1.go","codec/json.go","codec/hyperjson/bind.go","codec/hyperjson/parser.go","codec/hyperjson/string.go","proxy/span.go"],[m("struct/array/slice decoders","codec/hyperjson/bind.go"),m("conversion and timestamp fill-in","codec/json-v1.go:ToSpan,fillInTimestamp")],
 ["return value of the v1 decoder"])

p("C03","Zipkin v2 JSON decodes to exactly the spans it describes",
 "For every well-formed Zipkin v2 JSON document the decoder returns one span per element, in order, whose ids, parent, name, service (local endpoint), tags, start, duration (1 ms when absent or zero) and the client or server timings implied by the span kind (case-insensitive) equal those an independent JSON decoder yields. Key order, whitespace, unknown fields, string escapes, string lengths and how the input is split into reads do not matter.",
 ["inputs"],"all well-formed v2 documents and all ways a reader can chunk them",
 "One fixed document with one span; no buffer refills, no escapes, no unknown nested fields, no second span.",
 ["codec/json-v2.go","codec/json.go","codec/hyperjson/bind.go","codec/hyperjson/parser.go","codec/hyperjson/parser_skip.go","codec/hyperjson/string.go"],[m("struct/map/slice decoders","codec/hyperjson/bind.go"),m("conversion","codec/json-v2.go:ToSpan")],
 ["return value of the v2 decoder"])

p("C04","Jaeger JSON decodes to exactly the spans it describes",
 "For every well-formed Jaeger trace document the decoder returns one span per listed span of every data object, in order, with ids, operation name, service of the referenced process of the same data object, start, duration (1 ms when zero), string-valued tags (component renamed to lc; internal.span.format and span.kind left out; of several with the same key the last) and client or server timings by span kind (case-insensitive). The parent is the CHILD_OF reference, or the span itself when there is none.",
 ["inputs"],"all well-formed Jaeger documents",
 "One fixed document; processes, references of other types, several data objects, non-string tags and kinds are not varied.",
 ["codec/jaeger.go","proxy/id.go"],[m("conversion","codec/jaeger.go:ToSpan"),m("hex ids","proxy/id.go:UnmarshalJSON,ParseId")],["return value of the Jaeger decoder"])

p("C05","The streaming JSON tokenizer is independent of buffering",
 "For every well-formed JSON text whose top-level value is an object or array, reading, peeking at and skipping values through the streaming tokenizer yields the same token kinds, decoded strings, number and literal texts as a standard JSON decoder. The result is the same for every initial buffer (none, tiny, large) and every way the reader splits the text.",
 ["inputs"],"all well-formed JSON texts, initial buffer sizes, read splits and mixes of read/skip calls",
 "Tests walk one small object from an in-memory reader whose content fits one buffer fill.",
 ["codec/hyperjson/parser.go","codec/hyperjson/parser_skip.go","codec/hyperjson/parser_array.go","codec/hyperjson/parser_object.go","codec/hyperjson/string.go"],[m("buffer refill and compaction","codec/hyperjson/parser.go:bufferMore,require"),m("escape decoding in place","codec/hyperjson/string.go")],["tokens returned by the tokenizer API"],
 [dict(name="buffer/head/tail",meaning="window of unread input",where="codec/hyperjson/parser.go")])

p("C06","No input can crash, hang or exhaust a decoder",
 "For any sequence of bytes, however malformed, deeply nested or large its declared lengths, each span decoder (Zipkin v1, v2, Jaeger, binary) terminates and returns spans or an error without panicking or overflowing the stack. The memory it allocates stays proportional to the input it has actually read.",
 ["inputs","fault_sequences"],"all byte strings and all reader behaviours (short reads, errors, EOF with data)",
 "No malformed input is ever fed to a decoder by the tests.",
 ["codec/hyperjson/parser.go","codec/hyperjson/parser_skip.go","codec/hyperjson/string.go","codec/binary.go","codec/jaeger.go","codec/json-v1.go","codec/json-v2.go"],[m("bounds checks in tokenizer","codec/hyperjson"),m("string length check","codec/binary.go:readString")],["decoder returns; process stays alive; allocation counters; CPU time"])

p("C07","A document that ends early or breaks off is never accepted",
 "If a JSON span document or a binary-encoded span is cut anywhere before its end, or its reader fails with an error before the end, the decoder returns an error and no spans are taken from it.",
 ["inputs","crash_points","fault_sequences"],"every cut position of every valid document; reader errors at every position",
 "The tests never truncate a document and never inject a reader error.",
 ["codec/hyperjson/parser.go","codec/hyperjson/bind.go","codec/binary.go","codec/json-v1.go","codec/json-v2.go","codec/jaeger.go"],[m("EOF/reader error propagation","codec/hyperjson/parser.go:bufferMore"),m("per-field error checks","codec/binary.go:BinaryDecode")],["error result of each decoder"])

p("C08","Decoding a payload depends on that payload alone",
 "The spans obtained from a payload are the same whatever payloads (valid, malformed or with repeated keys) were decoded before or are being decoded concurrently, and they never change after they were returned. No text from one payload ever appears in the spans of another; decoding is free of data races.",
 ["histories","schedules"],"all histories of earlier payloads and all interleavings of concurrent decodes",
 "Each decoder is called once per test process from a single goroutine, so pooled buffers and pooled span slots are never reused.",
 ["codec/json-v1.go","codec/json-v2.go","codec/json.go","codec/binary.go","cache/cache.go"],[m("pooled buffers / span slots are cleared","codec/json-v1.go,codec/json.go"),m("strings are copied out of pooled buffers","cache/cache.go")],["spans returned, re-inspected later"],
 [dict(name="bufferPool, poolSpansV1, binaryCache",meaning="state shared by all requests",where="codec/json.go, codec/json-v1.go, cache/cache.go")])

p("C09","Binary span encoding is lossless and Avro compatible",
 "Decoding the binary encoding of any span gives back an equal span (a missing tag map equals an empty one), consumes exactly the encoded bytes, and the encoding is readable by an independent Avro decoder. The decoder also accepts every other legal Avro layout of the same record, such as tag maps split over several blocks with or without block sizes.",
 ["inputs"],"all spans: all 64-bit ids, timestamps and durations including negatives and extremes, all strings and tag maps",
 "A handful of spans with small positive numbers; no extremes, no long strings, no multi-block maps.",
 ["codec/binary.go"],[m("zig-zag varints","codec/binary.go:writeLong,readLong"),m("block-wise maps","codec/binary.go:readMapString")],["encode and decode results"])

p("C10","Kafka messages carry the span and shard by trace",
 "For every span handed to the Kafka sender, the message that goes out carries a value that decodes to that span and a key that is a function of the trace id only and different for different trace ids, on the configured topic. Creating further messages, from any number of goroutines, never alters the bytes of earlier messages.",
 ["inputs","histories","schedules"],"all sequences of spans of all sizes, on any number of concurrent senders",
 "The only test encodes same-shaped small spans from one goroutine and never looks at keys, topics or spans that exceed the preallocated space.",
 ["balance/encoder.go","balance/sender.go","codec/binary.go"],[m("slab allocation of message bytes","balance/encoder.go:Encode"),m("trace id as message key","balance/encoder.go:Encode")],["messages as seen by the partitioner and on the wire of a broker"],
 [dict(name="encoder.buf/slices",meaning="slab from which message bytes are cut",where="balance/encoder.go")])

p("C11","The Kafka sender survives failing deliveries",
 "Spans whose delivery fails (too large for the broker, broker errors, lost connections) never stop the sender from accepting further spans, and every later span that can be delivered is still delivered. Each span accepted while the broker works is sent exactly once.",
 ["fault_sequences","histories"],"all sequences of deliverable and undeliverable spans and of broker failures",
 "No test creates a sender or a broker.",
 ["balance/sender.go"],[m("draining of producer results","balance/sender.go:NewSender")],["span channel keeps draining; messages received by the broker"])

p("C12","The Kafka consumer delivers every message before acknowledging it",
 "Every decodable message of every claimed partition is handed to the callback exactly once and in partition order, as the span it encodes; a message is acknowledged only after its span was handed over; undecodable messages are skipped without affecting others. Failed consumer sessions are started again on the same topic until the consumer is closed, and after close has returned the callback is no longer called.",
 ["inputs","schedules","fault_sequences","histories"],"all message sequences including garbage, any number of partitions and sessions, session errors, close at any point",
 "The receiver has no test.",
 ["balance/receiver.go","codec/binary.go"],[m("claim loop","balance/receiver.go:ConsumeClaim"),m("session loop and shutdown","balance/receiver.go:Consume")],["callback calls, MarkMessage calls, Consume calls on the consumer group"])

p("C13","String interning never changes a string",
 "The interning cache returns, for every input and every history, a string equal to its input at the time of the call; the returned string stays unchanged when the caller later overwrites a buffer it passed to a copying variant. Concurrent use is safe and free of data races.",
 ["inputs","histories","schedules"],"all byte strings, all histories including evictions, all interleavings",
 "The tests drive the list single-threaded and never look at returned contents or overwrite an input buffer.",
 ["cache/cache.go","cache/lru.go"],[m("copy before insert","cache/cache.go:lookupCache"),m("lock around the LRU","cache/cache.go")],["returned strings"])

p("C14","The interning cache is bounded and evicts least recently used first",
 "After every insertion the accounted size of the cache stays below its limit plus one entry, and its reported size and count equal those of the entries it actually holds. An entry is dropped only when room is needed, and never before an entry that was used less recently; everything that was not dropped is found again.",
 ["inputs","histories"],"all sequences of lookups and insertions and all capacities",
 "Tests use one access pattern with equally long values and check only counts and presence of the newest thousand.",
 ["cache/lru.go","cache/cache.go"],[m("recency list","cache/lru.go:linkedList"),m("eviction","cache/lru.go:ensureCacheSize")],["Get results, Size, Count"],
 [dict(name="values/usage/size/count",meaning="index, recency list and accounting must agree",where="cache/lru.go")])

p("C15","A trace is emitted once, complete, after it went quiet",
 "Under normal load, and within the size and age limits, all valid spans of a trace that arrive with pauses of less than the 8 s quiet period are emitted together as exactly one trace, which contains each distinct span id once and no span of another trace. It is emitted only after 8 s without a new span and no later than shortly after that; spans with a zero trace or span id are ignored.",
 ["inputs","schedules","histories"],"all interleavings of arrivals of any number of traces over time",
 "Nothing tests the collecting loop; time-dependent behaviour over seconds is out of a unit test's reach.",
 ["correct.go"],[m("per-trace trees","correct.go:ErrorCorrectSpans"),m("expiry on ticks","correct.go:finishTraces"),m("sorted span slice","correct.go:SpanSlice")],["channel of traces leaving the collector, with arrival times"],
 [dict(name="traces",meaning="spans collected per trace id",where="correct.go:ErrorCorrectSpans")])

p("C16","Client and server halves of a span merge independently of order",
 "When the client and the server side report the same span, in whatever order and however often, the emitted trace contains one span for it with all four timings, the parent if either side knows it, the union of both tag sets, and the server's service, name and tag values wherever the server supplied one, otherwise the client's.",
 ["inputs","histories"],"all pairs of halves, all arrival orders, repeated deliveries",
 "Three tests merge two-field spans in one order each; the parent, names, timings and repetition are not covered.",
 ["correct.go","proxy/span.go"],[m("merge rules","correct.go:mergeSpansInPlace"),m("parent completion","correct.go:AddSpan")],["spans leaving the collector"])

p("C17","Clock skew is corrected along the call tree",
 "In an emitted trace every span with client and server timings starts at its client-send time and lasts until its client-receive time, and all its descendants are shifted by the difference of the midpoints of its client and server intervals, accumulated along the path from the root; all other times and durations stay as reported. A non-root span whose resulting start lies before 2020 takes its parent's start; no other field of a span is altered.",
 ["inputs"],"all call trees, skews per service, and partial timings",
 "The one test of the correction fails on the committed code and covers a fixed three-span tree.",
 ["correct.go"],[m("recursive correction","correct.go:correctTreeTimings")],["start and duration of spans leaving the collector"])

p("C18","Traces are emitted exactly when a unique root exists or can be made",
 "A quiet trace is emitted if exactly one of its spans is a root candidate (self-parented, or parent not among the received spans), or if all its candidates name the same missing parent; otherwise it is not emitted at all. In the second case the emitted trace additionally holds one synthesized span with that parent's id spanning the candidates' reported time range, and all received spans.",
 ["inputs","histories"],"all parent/child graphs, including cycles, forests, unknown parents and any arrival order",
 "Only a two-span tree is examined; no forests, cycles or missing parents.",
 ["correct.go","proxy/span.go"],[m("root candidates","correct.go:Roots"),m("synthesized root","correct.go:createFakeRoot,allTheSameParent")],["presence and content of traces leaving the collector"])

p("C19","Oversized and endless traces are cut off for good",
 "A trace that collects more than 8192 distinct spans, or that has still not been quiet for a quiet period when five quiet periods have passed since its first span, is never emitted, and spans of it that arrive afterwards are dropped (as long as at most a thousand traces have been cut off so far). Traces within the limits are unaffected by it, and a trace of up to 8192 spans is emitted in full.",
 ["inputs","histories"],"all trace sizes and arrival patterns, in particular around and far beyond the limits",
 "No test reaches any limit; it needs thousands of spans and minutes of time.",
 ["correct.go"],[m("size and age limits","correct.go:finishTraces"),m("blacklist","correct.go:ErrorCorrectSpans")],["traces leaving the collector"],
 [dict(name="blacklist",meaning="trace ids whose spans are dropped",where="correct.go")])

p("C20","Buffered spans stay bounded and load shortens the wait",
 "With more than 100 000 spans held, traces are discarded, largest first and no more than needed, until fewer are held; smaller traces survive and are emitted. The quiet period shrinks from 8 s to 6, 4 and 2 s as the number of held spans reaches 40, 60 and 80 thousand, and returns to 8 s when the load is gone.",
 ["inputs","histories"],"all mixes of trace sizes and arrival rates below, around and beyond the thresholds",
 "No test holds more than four spans.",
 ["correct.go"],[m("buffer configurations","correct.go:bufferConfigs,finishTraces"),m("discarding","correct.go:discardSuspiciousTraces")],["traces leaving the collector and when"])

p("C21","Trace counters account for every trace exactly once",
 "Every collected trace that leaves the collector is counted exactly once as finished, without root, too large, too old or discarded; merged spans, discarded spans and spans received for cut-off traces are counted by what really happened to them. Once arrivals pause, the gauges for held traces and spans equal what is still held.",
 ["histories","inputs"],"all mixtures of trace fates",
 "No test reads a metric.",
 ["correct.go"],[m("meters and gauges","correct.go:finishTraces,discardSuspiciousTraces,mergeSpansInPlace")],["metrics registry against what left the collector"])

p("C22","Spans are translated faithfully for the Datadog agent",
 "Every span handed to the Datadog sink reaches the transport as exactly one span with the same trace, span and parent id, start, service (also as operation name), tags, the name as resource (a placeholder when empty) and the duration raised to at least 1 microsecond. It is flagged as error exactly when it has an error tag other than false or 0, and it is marked sampled.",
 ["inputs","histories"],"all spans, in any number and batching",
 "The datadog package has no tests.",
 ["datadog/converter.go"],[m("conversion","datadog/converter.go:Sink")],["arguments of the transport's SendTraces"])

p("C23","The Datadog sink submits each span once, grouped, in bounded time",
 "With a responsive agent, every span handed to the sink is submitted exactly once, in lists that each hold spans of a single trace and at most one list per trace and submission. A submission happens as soon as 1000 spans are waiting and otherwise within two flush intervals (4 s), and never without spans.",
 ["inputs","schedules","histories"],"all arrival patterns over time",
 "The datadog package has no tests; flushing is time driven.",
 ["datadog/converter.go"],[m("size and time based flushing","datadog/converter.go:Sink"),m("grouping","datadog/converter.go:submitTraces")],["SendTraces calls over (virtual) time"],
 [dict(name="spanCount/byTrace",meaning="spans waiting for submission",where="datadog/converter.go")])

p("C24","A slow or failing agent never blocks or ends the pipeline",
 "Whatever the agent does (errors, stalls of any length), the sink accepts traces without waiting for it; while the agent stalls, only whole batches beyond the bounded queue are dropped, nothing is duplicated or torn, and when the agent responds again the queued and all later spans are submitted.",
 ["fault_sequences","schedules"],"all sequences of agent errors and stalls against all arrival patterns",
 "The datadog package has no tests.",
 ["datadog/converter.go"],[m("bounded hand-over with drop","datadog/converter.go:Sink"),m("errors only logged","datadog/converter.go:submitTraces")],["intake channel, SendTraces calls"])

p("C25","The recent-span list shows the latest spans in order of receipt",
 "At any moment the recent-span list returns exactly the latest spans received (as many as its capacity, fewer only while fewer were received), each once, in the order in which they were received. It can be read while spans are being added, without data races, and what was returned does not change afterwards.",
 ["inputs","schedules","histories"],"all numbers of spans, trace sizes, capacities and read points",
 "The buffer has no test.",
 ["buffer.go"],[m("ring buffer","buffer.go:ReadFrom,ToSlice")],["returned list"],
 [dict(name="spans/position",meaning="ring buffer and write position",where="buffer.go")])

p("C26","Every output gets every converted trace",
 "Each span of each emitted trace is passed to the user's span converter once; spans for which it reports no error and returns non-zero ids are passed on, as converted, to the Datadog agent and to the recent-span list alike, all others to none of them. A rejected span does not affect the other spans of its trace.",
 ["inputs","histories","schedules"],"all traces and all converter behaviours",
 "The forwarding stage has no test.",
 ["main.go","buffer.go","datadog/converter.go"],[m("convert in place and fan out","main.go:forwardSpansToChannels")],["spans at the agent and in the admin listing of the running service"])

p("C27","Identifiers and times keep their value in text form",
 "Every 64-bit id is written as 16 lower-case hex digits and parsed back to itself, in text, in JSON and in the JSON of the recent-span list; hex of up to 16 digits in either case parses to its value, anything longer or non-hex is an error. Every timestamp survives its JSON form and its unit conversions, and a span list written as JSON reads back equal.",
 ["inputs"],"all 64-bit ids, all nanosecond timestamps in the representable calendar range, all candidate strings",
 "The proxy package has no tests.",
 ["proxy/id.go","proxy/timestamp.go","proxy/span.go"],[m("hex codec","proxy/id.go"),m("time codec","proxy/timestamp.go")],["marshalled and parsed values"])

p("C28","A running proxy delivers every accepted span to the agent once",
 "In a running proxy without Kafka, every span accepted over HTTP whose trace has a unique root arrives at the trace agent exactly once with the content it was posted with, together with the other spans of its trace, for any number of concurrent clients and formats. An unreachable or failing agent costs at most the spans submitted to it meanwhile; the service keeps accepting and delivers later spans, and no data race occurs.",
 ["schedules","inputs","fault_sequences"],"all concurrent request patterns and agent outages",
 "No test starts the service.",
 ["main.go","handlers.go","correct.go","datadog/converter.go","buffer.go"],[m("pipeline wiring","main.go:MainWithRouting")],["HTTP requests received by a recording trace agent"])

p("C29","With Kafka, proxies share the load without losing or splitting traces",
 "With Kafka load balancing and a working broker, every span accepted over HTTP by any proxy of a stable consumer group is published once and arrives at the trace agent exactly once with its content, and all spans of one trace are processed by the same proxy, whichever proxies received them. Undecodable records on the topic do no harm.",
 ["schedules","inputs","histories"],"all distributions of spans over proxies and partitions",
 "No test involves Kafka.",
 ["main.go","balance/encoder.go","balance/sender.go","balance/receiver.go"],[m("trace id as message key, hash partitioning","balance/encoder.go"),m("pipeline wiring","main.go:MainWithRouting")],["records at a recording broker, requests at a recording trace agent"])

p("C30","The admin endpoints always answer with well-formed JSON",
 "The recent-span list and the metrics page of a running proxy answer 200 with well-formed JSON at any time: before any traffic, during concurrent traffic and when idle. The numbers on the metrics page agree with the traffic handled so far: the receive timer of a format counts every document that was read, whether it was accepted or rejected; the other meters count the spans of accepted documents and what became of their traces, and never fall.",
 ["schedules","histories"],"all moments in the life of a service, concurrent reads and traffic",
 "No test starts the service or reads a metric.",
 ["main.go","buffer.go","cache/cache.go","proxy/id.go"],[m("admin handlers","main.go:MainWithRouting"),m("cache gauges","cache/cache.go:RegisterCacheMetrics")],["HTTP responses of the admin endpoints"])

p("C31","The service is connected to exactly what its options name",
 "For every combination of options the running service sends its traces to the trace agent at the given host and port (port 8126 if none is given) and nowhere else. Given Kafka addresses, of which one that works suffices, every span passes through exactly the given topic (zipkin-spans) and consumer group (zipkin-proxy): other topics are not touched, every group gets all spans of its topic, and a missing topic is created with 12 partitions and bounded retention (10 minutes, 64 MB). Log options change nothing else; with DD_LOG_TRACES=true traces go to the log instead of the agent. A custom routing serves its own routes next to the span endpoints, with gzip bodies decoded; recent spans are only shown with the admin credentials; metrics are reported below zipkin.proxy.",
 ["configurations","inputs"],"all combinations of options and surroundings (dead brokers, decoy agents, existing and missing topics, other groups)",
 "No test starts the service, with any options.",
 ["main.go","datadog/converter.go","balance/sender.go","balance/receiver.go","handlers.go"],[m("options and wiring","main.go:MainWithRouting"),m("transport by environment","datadog/converter.go:DefaultTransport")],["requests at recording agents at several addresses","records, requests and topics at a fake broker","responses of routes and admin pages","statsd packets"])

p("C32","Memory, goroutines and files stay bounded however long the service runs",
 "What a proxy holds on to does not grow with the number of spans, traces, documents, rejected bodies, connections, undecodable records, failed submissions or distinct texts it has handled: whenever everything received has been handled, live memory, goroutines and open files are back at the level they had before, however long it runs, with Kafka and without, whether the agent works or not.",
 ["histories","inputs"],"all long histories of traffic",
 "Tests end after a few spans; leaks only show over time.",
 ["correct.go","buffer.go","main.go","handlers.go","cache/lru.go","datadog/converter.go","balance/receiver.go","balance/sender.go"],[m("blacklist and collection of traces","correct.go:ErrorCorrectSpans"),m("string cache","cache/lru.go"),m("ring buffer","buffer.go"),m("readers of bodies","handlers.go:handleGzipRequestBody")],["live heap, stacks, goroutines and open files of the process when nothing is left to do"])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
