//go:build verif

package c26

import (
	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

func init() {
	forward = func(source <-chan proxy.Trace, targets []chan<- proxy.Trace, convert func(proxy.Span) (proxy.Span, error)) {
		zipkinproxy.VerifForward(source, targets, convert)
	}
}
