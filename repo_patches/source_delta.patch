From 49bbe9696d921d11688bec91e32c9633c74dd3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 01/15] fix: decode control character escapes in json strings

\n, \t, \r, \b and \f were decoded to the plain letter.
---
 codec/hyperjson/string.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/codec/hyperjson/string.go b/codec/hyperjson/string.go
index f63bac5..4267c40 100644
--- a/codec/hyperjson/string.go
+++ b/codec/hyperjson/string.go
@@ -24,8 +24,7 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		ch = input[idx]
 
 		if ch != 'u' {
-			// append escaped character as is
-			decoded = append(decoded, ch)
+			decoded = append(decoded, unescapeChar(ch))
 			continue
 		}
 
@@ -51,6 +50,26 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 	return decoded, nil
 }
 
+// unescapeChar returns the character that is encoded by a backslash
+// followed by the given character.
+func unescapeChar(ch byte) byte {
+	switch ch {
+	case 'b':
+		return '\b'
+	case 'f':
+		return '\f'
+	case 'n':
+		return '\n'
+	case 'r':
+		return '\r'
+	case 't':
+		return '\t'
+	default:
+		// the escaped character stands for itself
+		return ch
+	}
+}
+
 func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
 	var r rune
 	for _, c := range input[:4] {
-- 
2.43.0


From bd9c64ec7eaed9dc75e127f5594fd9b7a3fad693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 02/15] fix: decode surrogate pairs in json strings

Characters outside of the basic multilingual plane, escaped as a pair of
surrogates, were decoded to two replacement characters.
---
 codec/hyperjson/string.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/codec/hyperjson/string.go b/codec/hyperjson/string.go
index 4267c40..4cc412c 100644
--- a/codec/hyperjson/string.go
+++ b/codec/hyperjson/string.go
@@ -2,6 +2,8 @@ package hyperjson
 
 import (
 	"github.com/pkg/errors"
+	"unicode"
+	"unicode/utf16"
 	"unicode/utf8"
 )
 
@@ -36,8 +38,7 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		idx++
 
 		// decode the unicode
-		var err error
-		decoded, err = decodeUnicodeChar(decoded, input[idx:])
+		r, err := decodeHexRune(input[idx:])
 		if err != nil {
 			return nil, err
 		}
@@ -45,6 +46,22 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		// skip 3 of the consumed characters, the last one
 		// will be skipped by the for loop
 		idx += 3
+
+		// a character outside of the basic multilingual plane is encoded
+		// as a pair of two escaped surrogates.
+		if utf16.IsSurrogate(r) && idx+6 < len(input) && input[idx+1] == '\\' && input[idx+2] == 'u' {
+			low, err := decodeHexRune(input[idx+3:])
+			if err != nil {
+				return nil, err
+			}
+
+			if combined := utf16.DecodeRune(r, low); combined != unicode.ReplacementChar {
+				r = combined
+				idx += 6
+			}
+		}
+
+		decoded = appendRuneInPlace(decoded, r)
 	}
 
 	return decoded, nil
@@ -70,7 +87,7 @@ func unescapeChar(ch byte) byte {
 	}
 }
 
-func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
+func decodeHexRune(input []byte) (rune, error) {
 	var r rune
 	for _, c := range input[:4] {
 		switch {
@@ -81,13 +98,17 @@ func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
 		case 'A' <= c && c <= 'F':
 			c = c - 'A' + 10
 		default:
-			return nil, errors.Errorf("expected hexadecimal character but got '%c'", c)
+			return 0, errors.Errorf("expected hexadecimal character but got '%c'", c)
 		}
 
 		r = r*16 + rune(c)
 	}
 
+	return r, nil
+}
+
+func appendRuneInPlace(target []byte, r rune) []byte {
 	buf := target[len(target) : len(target)+4]
 	n := utf8.EncodeRune(buf, r)
-	return target[:len(target)+n], nil
+	return target[:len(target)+n]
 }
-- 
2.43.0


From 1b094e933fdef4c8113c13a0eba5e67a3d899eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 03/15] fix: grow the json buffer for tokens that do not fit
 into it

A token larger than the buffer made the parser read into an empty slice
in an endless loop.
---
 codec/hyperjson/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 9137610..5bd832d 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -425,6 +425,13 @@ func (p *Parser) bufferMore() error {
 		p.head = previousCount
 	}
 
+	// grow the buffer if a single token does not fit into it.
+	if p.head == len(p.buffer) {
+		buffer := make([]byte, 2*len(p.buffer)+64)
+		copy(buffer, p.buffer[:p.head])
+		p.buffer = buffer
+	}
+
 	// read more data into the rest
 	count, err := p.input.Read(p.buffer[p.head:])
 	if err == io.EOF {
-- 
2.43.0


From 39667db8c1f1e906be2e50915506852103ed2dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 04/15] fix: accept all exponent forms in json numbers

A number like 1E5 or 1e+5 anywhere in a document, even in a field that is
skipped, made the parser reject the whole document.
---
 codec/hyperjson/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 5bd832d..983fbb5 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -216,7 +216,7 @@ func (p *Parser) readNumber() (Token, error) {
 		for ; n < avail; n++ {
 			ch := p.buffer[p.tail+n]
 
-			if !isCharDigit(ch) && ch != '.' && ch != 'e' {
+			if !isCharDigit(ch) && ch != '.' && ch != 'e' && ch != 'E' && ch != '+' {
 				token := Token{
 					Type:  TypeNumber,
 					Value: p.buffer[p.tail : p.tail+n],
-- 
2.43.0


From ae7545e6a6b8abb365ea1c59c5f6be603570268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 05/15] fix: limit the nesting depth of skipped json values

A body with some million opening brackets in an unknown field overflowed
the stack, which can not be recovered from and ends the whole process.
---
 codec/hyperjson/parser.go      |  3 +++
 codec/hyperjson/parser_skip.go | 21 +++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 983fbb5..7df53c9 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -28,6 +28,9 @@ type Parser struct {
 	tail   int
 	head   int
 	eof    bool
+
+	// number of nested values that are currently being skipped.
+	depth int
 }
 
 func NewWithReader(r io.Reader, buf []byte) *Parser {
diff --git a/codec/hyperjson/parser_skip.go b/codec/hyperjson/parser_skip.go
index 3d9947a..fa3a167 100644
--- a/codec/hyperjson/parser_skip.go
+++ b/codec/hyperjson/parser_skip.go
@@ -2,6 +2,10 @@ package hyperjson
 
 import "github.com/pkg/errors"
 
+// Maximum nesting of values that can be skipped. This is the
+// same limit the json decoder of the standard library uses.
+const maxSkipDepth = 10000
+
 func (p *Parser) Skip() error {
 	next, err := p.NextType()
 	if err != nil {
@@ -28,10 +32,10 @@ func (p *Parser) skip(next Type) error {
 		_, err = p.readNull()
 
 	case TypeObjectBegin:
-		err = p.skipObject()
+		err = p.skipNested(p.skipObject)
 
 	case TypeArrayBegin:
-		err = p.skipArray()
+		err = p.skipNested(p.skipArray)
 
 	default:
 		err = errors.Errorf("can not skip unexpected symbol of type '%s'", next)
@@ -39,6 +43,19 @@ func (p *Parser) skip(next Type) error {
 	return err
 }
 
+// skipNested skips an object or array, but limits the depth of the recursion,
+// as running out of stack space can not be recovered from.
+func (p *Parser) skipNested(skip func() error) error {
+	if p.depth >= maxSkipDepth {
+		return errors.Errorf("value is nested more than %d levels deep", maxSkipDepth)
+	}
+
+	p.depth++
+	defer func() { p.depth-- }()
+
+	return skip()
+}
+
 func (p *Parser) skipArray() error {
 	if err := p.consumeArrayBegin(); err != nil {
 		return err
-- 
2.43.0


From c44795deb5275e1e02b92fc24a8488a5723d1ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 06/15] fix: read the errors of the kafka producer

The producer stops to accept messages if nobody reads its errors, so
a single span that could not be delivered blocked the sender for good.
---
 balance/sender.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/balance/sender.go b/balance/sender.go
index cb0af7b..37d7e10 100644
--- a/balance/sender.go
+++ b/balance/sender.go
@@ -20,9 +20,18 @@ func NewSender(client sarama.Client, topic string) (*Sender, error) {
 		return nil, errors.WithMessage(err, "initialize kafka producer")
 	}
 
+	// the producer blocks if nobody reads the errors it reports.
+	go logProducerErrors(producer)
+
 	return &Sender{producer, topic}, nil
 }
 
+func logProducerErrors(producer sarama.AsyncProducer) {
+	for err := range producer.Errors() {
+		log.Warnf("Could not send span to kafka: %s", err)
+	}
+}
+
 func (s *Sender) Send(spans <-chan proxy.Span) {
 	for span := range spans {
 		s.sendSpan(span)
-- 
2.43.0


From 1b54eeebfd3148dbb35cfc319e47c968617a2728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 07/15] fix: list the recent spans in the order they were
 received

The list started at the beginning of the ring buffer instead of at the
oldest span once the buffer was filled up for the first time.
---
 buffer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/buffer.go b/buffer.go
index 582e5f3..2dee225 100644
--- a/buffer.go
+++ b/buffer.go
@@ -33,8 +33,12 @@ func (buffer *SpansBuffer) ToSlice() []proxy.Span {
 	buffer.lock.Lock()
 	defer buffer.lock.Unlock()
 
+	// the oldest span is the one that will be overwritten next
+	capacity := uint(len(buffer.spans))
+
 	var result []proxy.Span
-	for _, span := range buffer.spans {
+	for offset := uint(0); offset < capacity; offset++ {
+		span := buffer.spans[(buffer.position+offset)%capacity]
 		if span.Id != 0 {
 			result = append(result, span)
 		}
-- 
2.43.0


From ae85dab9f16990ae106450462d53856b5dcd43ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 08/15] fix: do not let the span counter of a trace overflow

A trace that got more than 65535 spans between two checks was counted
modulo 65536, so it was sent although it is too large.
---
 correct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/correct.go b/correct.go
index b529b74..b1e015e 100644
--- a/correct.go
+++ b/correct.go
@@ -62,7 +62,7 @@ type tree struct {
 
 	started   time.Time
 	updated   time.Time
-	nodeCount uint16
+	nodeCount uint32
 }
 
 func newTree(traceId Id) *tree {
-- 
2.43.0


From 80c4e166ca6eeef958e65dbcd05b99941d3f9c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 09/15] fix: count discarded traces instead of spans in
 traces.discarded

---
 correct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/correct.go b/correct.go
index b1e015e..33fa657 100644
--- a/correct.go
+++ b/correct.go
@@ -427,7 +427,7 @@ func discardSuspiciousTraces(trees map[Id]*tree, maxSpans int) {
 	}
 
 	metricsSpansDiscarded.Mark(int64(discardSpanCount))
-	metricsTracesDiscarded.Mark(int64(discardSpanCount))
+	metricsTracesDiscarded.Mark(int64(discardTraceCount))
 
 	log.Warnf("Too many spans, discarded %d trace with %d spans", discardTraceCount, discardSpanCount)
 }
-- 
2.43.0


From e05426263cd09256fe0ff43fdaf9fb34c63a1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 10/15] fix: do not make the fake root a child of its own
 descendants

The parent of the fake root is the trace id. If a span with that id is
part of the trace, this resulted in a cycle and the trace got lost.
---
 correct.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/correct.go b/correct.go
index 33fa657..c0cabbd 100644
--- a/correct.go
+++ b/correct.go
@@ -258,7 +258,14 @@ func finishTraces(traces map[Id]*tree, blacklist map[Id]none, outputCh chan<- pr
 		roots := trace.Roots()
 		if len(roots) > 1 && allTheSameParent(roots) {
 			// add a fake root to the span and look for a new root span
-			trace.AddSpan(createFakeRoot(roots))
+			fakeRoot := createFakeRoot(roots)
+
+			// the fake root must not become the child of one of its own descendants
+			if trace.spans.HasSpan(fakeRoot.Parent) {
+				fakeRoot.Parent = fakeRoot.Id
+			}
+
+			trace.AddSpan(fakeRoot)
 			roots = trace.Roots()
 
 			log.Debugf("Missing root, injecting fake-root span")
-- 
2.43.0


From 8f9a36bcbff44b0d0533d83c672f2cf77e31cf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 11/15] fix: check the length of a binary string before
 allocating it

A few bytes could make the decoder allocate and clear 2 GB of memory.
---
 codec/binary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codec/binary.go b/codec/binary.go
index 0c2190e..856a4bb 100644
--- a/codec/binary.go
+++ b/codec/binary.go
@@ -142,6 +142,11 @@ func readString(r *bytes.Reader) (string, error) {
 		return "", fmt.Errorf("string length out of range: %d", len)
 	}
 
+	// do not allocate memory for data that is not there
+	if len > int64(r.Len()) {
+		return "", io.ErrUnexpectedEOF
+	}
+
 	if len == 0 {
 		return "", nil
 	}
-- 
2.43.0


From d03fa8e835f4b826877eecbc462466b28658f867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 12/15] fix: clear pooled binary annotations before decoding
 into them

If a span held the key binaryAnnotations twice, annotations beyond the end
of the second list stayed in the pooled memory and showed up in the spans of
later requests.
---
 codec/json-v1.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/codec/json-v1.go b/codec/json-v1.go
index 1d629a6..1404fae 100644
--- a/codec/json-v1.go
+++ b/codec/json-v1.go
@@ -176,7 +176,7 @@ func spanV1ValueDecoder() hyperjson.ValueDecoder {
 			Offset:   hyperjson.OffsetOf(spanV1{}, "BinaryAnnotations"),
 			Decoder: hyperjson.MakeSliceDecoder(
 				reflect2.TypeOf([]binaryAnnotationV1{}).(reflect2.SliceType),
-				hyperjson.MakeStructDecoder([]hyperjson.Field{
+				clearBinaryAnnotationV1(hyperjson.MakeStructDecoder([]hyperjson.Field{
 					{
 						JsonName: "key",
 						Offset:   hyperjson.OffsetOf(binaryAnnotationV1{}, "Key"),
@@ -192,7 +192,7 @@ func spanV1ValueDecoder() hyperjson.ValueDecoder {
 						Offset:   hyperjson.OffsetOf(binaryAnnotationV1{}, "Endpoint"),
 						Decoder:  endpointValueDecoder,
 					},
-				})),
+				}))),
 		},
 		{
 			JsonName: "annotations",
@@ -241,6 +241,15 @@ func spanV1ValueDecoder() hyperjson.ValueDecoder {
 	}
 }
 
+// clears a binary annotation before decoding into it, as it might still hold
+// the values of another list of annotations that was decoded before.
+func clearBinaryAnnotationV1(decoder hyperjson.ValueDecoder) hyperjson.ValueDecoder {
+	return func(target unsafe.Pointer, p *hyperjson.Parser) error {
+		*(*binaryAnnotationV1)(target) = binaryAnnotationV1{}
+		return decoder(target, p)
+	}
+}
+
 var decoderSliceSpanV1 = hyperjson.MakeSliceDecoder(
 	reflect2.TypeOf([]spanV1{}).(reflect2.SliceType),
 	spanV1ValueDecoder())
-- 
2.43.0


From 1ba5cda8ad0edfc2c5950e0348905de148fccbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 13/15] fix: report a cache hit rate of zero without any
 lookups

The value was not a number, which can not be encoded to json, so the
metrics page failed if there was no lookup since it was last requested.
---
 cache/cache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index 6eb5390..a26a0dc 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -72,6 +72,12 @@ func RegisterCacheMetrics(m metrics.Registry) {
 	metrics.NewRegisteredFunctionalGaugeFloat64("binary.cache.hit.rate", m, func() float64 {
 		hitCount := atomic.SwapUint64(&metricHitCount, 0)
 		missCount := atomic.SwapUint64(&metricMissCount, 0)
+
+		// not a number can not be encoded to json
+		if hitCount+missCount == 0 {
+			return 0
+		}
+
 		return float64(hitCount) / float64(hitCount+missCount)
 	})
 
-- 
2.43.0


From 7dbaddd2dc9ea78235093a0ea09f6ae1c8bdc60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 14/15] fix: reject a body that is damaged behind the end of
 its document

The checksum of a compressed body was never verified if the parser found the
end of the document before the end of the stream.
---
 handlers.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/handlers.go b/handlers.go
index 733f6ea..65e7743 100644
--- a/handlers.go
+++ b/handlers.go
@@ -8,6 +8,7 @@ import (
 	"github.com/pkg/errors"
 	"github.com/rcrowley/go-metrics"
 	"io"
+	"io/ioutil"
 	"math/rand"
 	"net/http"
 	"strings"
@@ -88,6 +89,12 @@ func parseSpansWithJSON(spansChannel chan<- proxy.Span, body io.Reader, parser f
 		return errors.WithMessage(err, "parsing spans from json")
 	}
 
+	// the parser stops at the end of the document. The body might still turn out to be
+	// damaged, e.g. if the checksum of a compressed body does not match.
+	if _, err := io.Copy(ioutil.Discard, body); err != nil {
+		return errors.WithMessage(err, "reading end of body")
+	}
+
 	for _, span := range parsedSpans {
 		spansChannel <- span
 	}
-- 
2.43.0


From 5435f51ee14798064f76f52bbe32867f40f83d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 15/15] Add a hook for the forwarder, built with the verif tag
 only

---
 hooks_verif.go | 10 ++++++++++
 1 file changed, 10 insertions(+)
 create mode 100644 hooks_verif.go

diff --git a/hooks_verif.go b/hooks_verif.go
new file mode 100644
index 0000000..2890630
--- /dev/null
+++ b/hooks_verif.go
@@ -0,0 +1,10 @@
+//go:build verif
+
+package zipkinproxy
+
+import "github.com/flachnetz/dd-zipkin-proxy/proxy"
+
+// VerifForward lets the monitors run the forwarder with outputs of their own.
+func VerifForward(source <-chan proxy.Trace, targets []chan<- proxy.Trace, converter SpanConverter) {
+	forwardSpansToChannels(source, targets, converter)
+}
-- 
2.43.0

