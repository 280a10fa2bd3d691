// Package httpsim drives the caching transport with generated request histories on a virtual clock
// and compares what clients and the origin see with a reference model of an HTTP cache.
package httpsim

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"strings"
	"time"
)

// H is a header field. If T is set the value is the HTTP date T seconds from "now", in format F.
type H struct {
	K string `json:"k"`
	V string `json:"v,omitempty"`
	T *int64 `json:"t,omitempty"`
	F string `json:"f,omitempty"`
}

func (h H) value(now time.Time) string {
	if h.T == nil {
		return h.V
	}
	t := now.UTC().Truncate(time.Second).Add(time.Duration(*h.T) * time.Second)
	switch h.F {
	case "rfc850":
		return t.Format("Monday, 02-Jan-06 15:04:05 GMT")
	case "asctime":
		return t.Format(time.ANSIC)
	}
	return t.Format(http.TimeFormat)
}

// Req is a client request.
type Req struct {
	Method string `json:"m"`
	Scheme string `json:"s"`
	Host   string `json:"h"`
	Target string `json:"u"` // path?query as on the wire
	Hdr    []H    `json:"hdr,omitempty"`
	Body   string `json:"body,omitempty"`
}

// Resp is an origin response.
type Resp struct {
	Status  int    `json:"st"`
	Hdr     []H    `json:"hdr,omitempty"`
	Body    string `json:"b,omitempty"`
	BodyB64 string `json:"b64,omitempty"`
	Repeat  int    `json:"rep,omitempty"` // body repeated
	Framing string `json:"fr,omitempty"`  // cl | chunked | close | decoded
	Cut     int    `json:"cut,omitempty"` // break the body off this many bytes before its end
	Err     string `json:"err,omitempty"` // transport error instead of a response
}

func (r *Resp) body() []byte {
	b := []byte(r.Body)
	if r.BodyB64 != "" {
		b, _ = base64.StdEncoding.DecodeString(r.BodyB64)
	}
	if r.Repeat > 1 {
		b = []byte(strings.Repeat(string(b), r.Repeat))
	}
	return b
}

// Timeout is a path TTL rule.
type Timeout struct {
	Path string `json:"p"`
	MS   int64  `json:"ms"`
}

// Content is a content exclusion rule.
type Content struct {
	Type string `json:"t"`
	Size int    `json:"s,omitempty"`
}

// Cfg is the cache configuration.
type Cfg struct {
	Strict    bool              `json:"strict"`
	XHeader   bool              `json:"xh,omitempty"`
	XName     string            `json:"xn,omitempty"`
	TTL       string            `json:"ttl,omitempty"`
	CC        string            `json:"cc,omitempty"`
	Force     bool              `json:"force,omitempty"`
	Timeouts  []Timeout         `json:"to,omitempty"`
	ExPath    []string          `json:"exp,omitempty"`
	ExHeader  map[string]string `json:"exh,omitempty"`
	ExContent []Content         `json:"exc,omitempty"`
	NoExclude bool              `json:"noex,omitempty"`
}

// Step is one step of a history.
type Step struct {
	Sleep int64  `json:"sleep,omitempty"` // milliseconds before the step
	Cfg   *Cfg   `json:"cfg,omitempty"`
	Req   *Req   `json:"req,omitempty"`
	Resp  *Resp  `json:"resp,omitempty"`
	NM    *Resp  `json:"nm,omitempty"`    // answer to a conditional request, if any
	Fault *Fault `json:"fault,omitempty"` // what the store returns during this step instead
}

// Fault makes the store misbehave during one step.
type Fault struct {
	Kind string `json:"k"`             // none | empty | truncate | junk | foreign
	N    int    `json:"n,omitempty"`   // truncate: bytes kept (modulo the length)
	Data string `json:"b64,omitempty"` // junk
}

// Scenario is a history.
type Scenario struct {
	Cfg    Cfg    `json:"cfg"`
	Steps  []Step `json:"steps"`
	Epi    bool   `json:"epi,omitempty"`    // finish with one plain GET per resource
	EpiAge int64  `json:"epiAge,omitempty"` // ms before the epilogue
}

func i64(v int64) *int64 { return &v }

func (s *Step) String() string { return fmt.Sprintf("%+v", *s) }
