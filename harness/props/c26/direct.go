package c26

import (
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// forward runs the forwarder on its own. It is nil if the hooks are not available.
var forward func(source <-chan proxy.Trace, targets []chan<- proxy.Trace, convert func(proxy.Span) (proxy.Span, error))
