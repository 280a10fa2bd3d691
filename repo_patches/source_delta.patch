From e27f31a0dd63bf9685722a80fa012b98278484e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 01/60] fix: do not add or force a blank Cache-Control header
 when no default is configured

---
 pkg/server/middleware/httpcache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index c88a3c9..4119976 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -239,6 +239,9 @@ func (t *Transport) injectValidationHeaders(ireq *http.Request, header http.Head
 
 // updateCacheControl sets or updates the cache-control header.
 func updateCacheControl(header http.Header, val string, force bool) {
+	if val == "" {
+		return // no default configured.
+	}
 	overwrite := force
 	if _, presentcc := header["Cache-Control"]; !presentcc || overwrite {
 		header["Cache-Control"] = []string{val}
-- 
2.43.0


From 888d85425b2f6d80d1b8800f0bf938ec2b5de9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 02/60] fix: send the Date fallback of a validation as
 If-Modified-Since

---
 pkg/server/middleware/httpcache.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 4119976..15f3551 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -227,11 +227,10 @@ func (t *Transport) injectValidationHeaders(ireq *http.Request, header http.Head
 	if lastModified := header.Get(cache.HeaderLastModified); lastModified != "" {
 		forkReq()
 		req.Header.Set(cache.HeaderIfModifiedSince, lastModified)
-	} else {
+	} else if date := header.Get(cache.HeaderDate); date != "" {
 		// Fallback to Date header if Last-Modified is missing.
 		forkReq()
-		date := header.Get(cache.HeaderDate)
-		req.Header.Set(cache.HeaderLastModified, date)
+		req.Header.Set(cache.HeaderIfModifiedSince, date)
 	}
 
 	return req
-- 
2.43.0


From e18d3cb8b0c6cef793a56d9af30f5b4df4bf86d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 03/60] fix: mark cache hits only if the debug header is
 enabled

---
 pkg/server/middleware/httpcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 15f3551..e274599 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -188,7 +188,9 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 // handleCacheHit handles a cache hit and sends the cached response downstream.
 func (t *Transport) handleCacheHit(key string, cached *cache.LookupResult) (*http.Response, error) {
 	log.Debug().Str("cache-key", key).Interface("header", cached.Header()).Str("x-cache", "HIT").Send()
-	cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
+	if t.Cache.MarkCachedResponses() {
+		cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
+	}
 	return cached.Response(), nil
 }
 
-- 
2.43.0


From 040674b3e5aaa28c1bb191640225640c14ebf72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 04/60] fix: treat a response whose age has reached its
 freshness lifetime as stale

---
 pkg/cache/httpcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 3e86cbd..9c76731 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -424,7 +424,7 @@ func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duratio
 		freshness = expires.Sub(date)
 	}
 
-	if age > freshness { // Stale response.
+	if age >= freshness { // Stale response.
 		// Check if the response is allowed being served stale,
 		// or if the request max-stale directive prevents it.
 		allowStale := reqCacheControl.MaxStale >= 0 &&
-- 
2.43.0


From 19ca43a801b67456d5fa2cd07b19af2ed2adff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 05/60] fix: do not derive an (overflowing) age from a missing
 or invalid Date header

---
 pkg/cache/cache_control.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 8f92c7d..745a7e5 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -230,9 +230,11 @@ func parseHttpTime(s string) time.Time {
 // CalculateAge calculates the value of Age headers in seconds.
 // https://httpwg.org/specs/rfc7234.html#age.calculations
 func CalculateAge(headers *http.Header, responseTime time.Time, now time.Time) time.Duration {
-	// Calculate apparent age.
-	date := parseHttpTime(headers.Get(HeaderDate))
-	apparentAge := max(0, int64(responseTime.Sub(date)))
+	// Calculate apparent age. A missing or invalid Date does not imply any age.
+	var apparentAge int64
+	if date := parseHttpTime(headers.Get(HeaderDate)); !date.IsZero() {
+		apparentAge = max(0, int64(responseTime.Sub(date)))
+	}
 
 	// Set corrected age to the value Age header,
 	// as response delay (response_time - request_time) is assumed to be negligible.
-- 
2.43.0


From 347a05b8a94082bf9bab563815c030dfe4b855b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 06/60] fix: treat an unparsable Date or Expires as no
 freshness lifetime

---
 pkg/cache/httpcache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 9c76731..188217b 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -419,9 +419,12 @@ func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duratio
 	if resCacheControl.MaxAge >= 0 {
 		freshness = resCacheControl.MaxAge
 	} else {
+		// A missing or invalid date does not provide any freshness lifetime.
 		expires := parseHttpTime(header.Get(HeaderExpires))
 		date := parseHttpTime(header.Get(HeaderDate))
-		freshness = expires.Sub(date)
+		if !expires.IsZero() && !date.IsZero() {
+			freshness = expires.Sub(date)
+		}
 	}
 
 	if age >= freshness { // Stale response.
-- 
2.43.0


From 30d2acdf40676a74a8169c6b951030e77d924a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 07/60] fix: bypass the cache for range requests

---
 pkg/cache/cacheable.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index e2f6a90..5dc72b7 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -41,6 +41,7 @@ const (
 
 	// Request headers
 	HeaderPragma            = "Pragma"
+	HeaderRange             = "Range"
 	HeaderIfRange           = "If-Range"
 	HeaderIfMatch           = "If-Match"
 	HeaderIfNoneMatch       = "If-None-Match"
@@ -100,6 +101,13 @@ func IsCacheableRequest(req *http.Request) bool {
 		}
 	}
 
+	// Check if the request asks for a partial response.
+	// For now, range requests bypass the cache, as neither a complete response can be
+	// sliced nor may a partial response be used to satisfy a request for the complete one.
+	if _, ok := req.Header[HeaderRange]; ok {
+		return false
+	}
+
 	// Check if the request contains authorization headers.
 	// For now, requests with authorization headers bypass the cache.
 	// https://httpwg.org/specs/rfc7234.html#caching.authenticated.responses
-- 
2.43.0


From ded7f0f44e7128267354ceb0b6ffddaa72fbd959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 08/60] fix: parse Cache-Control directives case-insensitively
 and honour quoted strings

---
 pkg/cache/cache_control.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 745a7e5..a13fac0 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -78,7 +78,7 @@ func ParseRequestCacheControl(header string) RequestCacheControl {
 	var cc RequestCacheControl
 	cc.SetDefaults()
 
-	directives := strings.Split(header, ",")
+	directives := splitDirectives(header)
 	for _, directive := range directives {
 		dir, arg := splitDirective(directive)
 		switch dir {
@@ -148,7 +148,7 @@ func ParseResponseCacheControl(header string) ResponseCacheControl {
 	var cc ResponseCacheControl
 	cc.SetDefaults()
 
-	directives := strings.Split(header, ",")
+	directives := splitDirectives(header)
 	for _, directive := range directives {
 		dir, arg := splitDirective(directive)
 		switch dir {
@@ -173,7 +173,36 @@ func ParseResponseCacheControl(header string) ResponseCacheControl {
 	return cc
 }
 
+// splitDirectives splits the cache control header into its directives. A comma
+// that is part of a quoted-string does not separate directives.
+func splitDirectives(header string) []string {
+	if !strings.ContainsRune(header, '"') {
+		return strings.Split(header, ",")
+	}
+	var directives []string
+	var quoted, escaped bool
+	start := 0
+	for i := 0; i < len(header); i++ {
+		switch c := header[i]; {
+		case escaped:
+			escaped = false
+		case quoted && c == '\\':
+			escaped = true
+		case c == '"':
+			quoted = !quoted
+		case c == ',' && !quoted:
+			directives = append(directives, header[start:i])
+			start = i + 1
+		}
+	}
+	if quoted {
+		return strings.Split(header, ",") // unterminated quoted-string.
+	}
+	return append(directives, header[start:])
+}
+
 // splitDirective splits the cache control directive into its token and optional argument.
+// The token is case-insensitive and returned in lower case.
 // Grammar (https://httpwg.org/specs/rfc7234.html#header.cache-control):
 //
 //	Cache-Control   = 1#cache-directive
@@ -185,7 +214,7 @@ func splitDirective(s string) (dir string, arg string) {
 	} else {
 		dir = strings.TrimSpace(s)
 	}
-	return dir, arg
+	return strings.ToLower(dir), arg
 }
 
 // parseDuration parses a directive argument and returns a valid duration in
-- 
2.43.0


From caebd0ffe6bef12fc29a7d781f939f92afb46a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 09/60] fix: evaluate all Cache-Control and Pragma header lines

---
 pkg/cache/cache_control.go | 6 ++++++
 pkg/cache/cacheable.go     | 2 +-
 pkg/cache/httpcache.go     | 6 +++---
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index a13fac0..3330f79 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -173,6 +173,12 @@ func ParseResponseCacheControl(header string) ResponseCacheControl {
 	return cc
 }
 
+// joinHeader returns the combined value of all header lines with the given name.
+// https://httpwg.org/specs/rfc7230.html#field.order
+func joinHeader(header http.Header, name string) string {
+	return strings.Join(header.Values(name), ", ")
+}
+
 // splitDirectives splits the cache control header into its directives. A comma
 // that is part of a quoted-string does not separate directives.
 func splitDirectives(header string) []string {
diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index 5dc72b7..fad60cc 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -124,7 +124,7 @@ func IsCacheableRequest(req *http.Request) bool {
 // then its response is also not cacheable. Hence, CanServeRequestFromCache and
 // `IsCacheableResponse` together should cover the cacheability of the response.
 func IsCacheableResponse(res *http.Response) bool {
-	cacheControl := res.Header.Get(HeaderCacheControl)
+	cacheControl := joinHeader(res.Header, HeaderCacheControl)
 	resCacheControl := ParseResponseCacheControl(cacheControl)
 
 	// Only cache responses with enough data to calculate freshness lifetime:
diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 188217b..53a1e41 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -360,7 +360,7 @@ type LookupRequest struct {
 func NewLookupRequest(req *http.Request, timestamp time.Time, strict bool) *LookupRequest {
 	var requestCacheControl RequestCacheControl
 	requestCacheControl.SetDefaults()
-	cacheControl := req.Header.Get(HeaderCacheControl)
+	cacheControl := joinHeader(req.Header, HeaderCacheControl)
 
 	if cacheControl != "" {
 		requestCacheControl = ParseRequestCacheControl(cacheControl)
@@ -369,7 +369,7 @@ func NewLookupRequest(req *http.Request, timestamp time.Time, strict bool) *Look
 		// According to https://httpwg.org/specs/rfc7234.html#header.pragma, when the Cache-Control
 		// header is not set, the "Pragma:no-cache" directive is equivalent to "Cache-Control:no-cache",
 		// any other directives are ignored.
-		pragma := req.Header.Get(HeaderPragma)
+		pragma := joinHeader(req.Header, HeaderPragma)
 		requestCacheControl.MustValidate = ParseRequestCacheControl(pragma).MustValidate
 	}
 
@@ -404,7 +404,7 @@ func (l *LookupRequest) makeResult(res *http.Response, resTime time.Time) *Looku
 
 // requiresValidation checks if the cached response needs to be validated by the origin.
 func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duration) bool {
-	resCacheControl := ParseResponseCacheControl(header.Get(HeaderCacheControl))
+	resCacheControl := ParseResponseCacheControl(joinHeader(*header, HeaderCacheControl))
 	reqCacheControl := l.ReqCacheControl
 
 	maxAgeExceeded := reqCacheControl.MaxAge >= 0 && reqCacheControl.MaxAge < age
-- 
2.43.0


From bc59e17e16e9b53159838321086ee2b13463b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:10 +0000
Subject: [PATCH 10/60] fix: do not crash on a 304 response without a cached
 response

---
 pkg/server/middleware/httpcache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index e274599..855c612 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -148,6 +148,11 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 
 	shouldUpdateCachedEntry := true
 	if resp.StatusCode == http.StatusNotModified {
+		if cached.Status != cache.EntryRequiresValidation {
+			// Nothing has been validated, so there is no cached response to update.
+			return resp, nil
+		}
+
 		// If the 304 response contains a strong validator (etag) that does not match
 		// the cached response, the cached response should not be updated.
 		resEtag := resp.Header.Get(cache.HeaderEtag)
-- 
2.43.0


From 4d0b524369092f550bb3767e5bafd605aac76a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 11/60] fix: do not let an invalid s-maxage override a valid
 max-age

---
 pkg/cache/cache_control.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 3330f79..a5107ba 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -163,7 +163,10 @@ func ParseResponseCacheControl(header string) ResponseCacheControl {
 		case "public":
 			cc.IsPublic = true
 		case "s-maxage":
-			cc.MaxAge = parseDuration(arg)
+			// An invalid duration is ignored and must not override 'max-age'.
+			if maxAge := parseDuration(arg); maxAge >= 0 {
+				cc.MaxAge = maxAge
+			}
 		case "max-age":
 			if cc.MaxAge < 0 {
 				cc.MaxAge = parseDuration(arg)
-- 
2.43.0


From a122ee8538fe7745350fb46ebb6431c9bf3cb54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:36 +0000
Subject: [PATCH 12/60] fix: evaluate all content exclusion rules, not only the
 first matching one

---
 pkg/cache/httpcache.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 53a1e41..06723f4 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -231,11 +231,10 @@ func (c *HttpCache) IsExcludedContent(content string, length int64) bool {
 	}
 	for _, t := range config.Exclude.Content {
 		if t.TypeMatcher != nil && t.TypeMatcher.MatchString(content) {
-			if t.Size > 0 {
-				// if content exceeds the allowed size, do not cache.
-				return t.Size < int(length)
+			// If content exceeds the allowed size (if any), do not cache.
+			if t.Size <= 0 || int64(t.Size) < length {
+				return true
 			}
-			return true
 		}
 	}
 	return false
-- 
2.43.0


From 3ade504441ab5de37ed6b02355121a9abd966bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 13/60] fix: do not persist the hit mark of a validated
 response

---
 pkg/server/middleware/httpcache.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 855c612..e64b6e0 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -124,9 +124,6 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		return t.handleCacheHit(cacheKey, cached)
 
 	case cache.EntryRequiresValidation:
-		if t.Cache.MarkCachedResponses() {
-			cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
-		}
 		log.Debug().Str("cache-key", cacheKey).Interface("header", cached.Header()).
 			Msg("Cache HIT with validation")
 		req = t.injectValidationHeaders(lookup.Request, cached.Header())
@@ -146,7 +143,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		return resp, err
 	}
 
-	shouldUpdateCachedEntry := true
+	shouldUpdateCachedEntry, validated := true, false
 	if resp.StatusCode == http.StatusNotModified {
 		if cached.Status != cache.EntryRequiresValidation {
 			// Nothing has been validated, so there is no cached response to update.
@@ -167,7 +164,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		cached.UpdateHeader(resp.Header)
 
 		_ = resp.Body.Close()
-		resp = cached.Response()
+		resp, validated = cached.Response(), true
 	}
 
 	// Set or update custom cache control header.
@@ -187,6 +184,11 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		t.Cache.Delete(ctx, lookup)
 	}
 
+	// Mark the delivered response only, the stored response must not contain the mark.
+	if validated && t.Cache.MarkCachedResponses() {
+		resp.Header.Set(t.Cache.XCacheHeader(), cache.HIT)
+	}
+
 	return resp, nil
 }
 
-- 
2.43.0


From e399a6b811e5fdc361c99616a9da28a4f2968f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 14/60] fix: keep malformed queries distinct in the cache key

---
 pkg/cache/key.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/key.go b/pkg/cache/key.go
index 38eed29..663f925 100644
--- a/pkg/cache/key.go
+++ b/pkg/cache/key.go
@@ -47,7 +47,7 @@ func NewKeyFromRequst(req *http.Request) *Key {
 		ClusterName: "kache-",
 		Host:        req.Host,
 		Path:        cleanPath(req.URL.Path),
-		Query:       req.URL.Query().Encode(),
+		Query:       canonicalQuery(req.URL),
 		Scheme:      req.URL.Scheme,
 	}
 	if key.Scheme == "" {
@@ -94,3 +94,14 @@ func cleanPath(p string) string {
 	}
 	return path.Clean(p)
 }
+
+// canonicalQuery returns the canonical query of u. A query that cannot be parsed
+// is used as is, because dropping its malformed parameters would map different
+// queries to the same key.
+func canonicalQuery(u *url.URL) string {
+	query, err := url.ParseQuery(u.RawQuery)
+	if err != nil {
+		return u.RawQuery
+	}
+	return query.Encode()
+}
-- 
2.43.0


From 3dc28d66e166061a3c7520da62a67e6d27df5fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 15/60] fix: keep paths with encoded slashes distinct in the
 cache key

---
 pkg/cache/key.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/pkg/cache/key.go b/pkg/cache/key.go
index 663f925..c1d288a 100644
--- a/pkg/cache/key.go
+++ b/pkg/cache/key.go
@@ -27,6 +27,7 @@ import (
 	"net/http"
 	"net/url"
 	"path"
+	"strings"
 
 	xxhash "github.com/cespare/xxhash/v2"
 )
@@ -36,6 +37,7 @@ type Key struct {
 	ClusterName string
 	Host        string
 	Path        string
+	RawPath     string // escaped path, only set if Path is ambiguous (encoded slashes).
 	Query       string
 	Scheme      string
 }
@@ -50,6 +52,9 @@ func NewKeyFromRequst(req *http.Request) *Key {
 		Query:       canonicalQuery(req.URL),
 		Scheme:      req.URL.Scheme,
 	}
+	if p := req.URL.EscapedPath(); strings.Contains(strings.ToLower(p), "%2f") {
+		key.RawPath = cleanEscapedPath(p)
+	}
 	if key.Scheme == "" {
 		if req.TLS == nil {
 			key.Scheme = "http"
@@ -68,6 +73,9 @@ func (k Key) String() string {
 		Path:     k.Path,
 		RawQuery: k.Query,
 	}
+	if k.RawPath != "" {
+		url.Path, url.RawPath = unescapePath(k.RawPath), k.RawPath
+	}
 	return fmt.Sprintf("%s%s", k.ClusterName, url.String())
 }
 
@@ -105,3 +113,21 @@ func canonicalQuery(u *url.URL) string {
 	}
 	return query.Encode()
 }
+
+// cleanEscapedPath returns the canonical escaped path for the escaped path p,
+// in which an encoded slash does not separate path segments.
+func cleanEscapedPath(p string) string {
+	segments := strings.Split(p, "/")
+	for i, s := range segments {
+		segments[i] = url.PathEscape(unescapePath(s))
+	}
+	return cleanPath(strings.Join(segments, "/"))
+}
+
+// unescapePath returns the unescaped path for p, or p if it cannot be unescaped.
+func unescapePath(p string) string {
+	if u, err := url.PathUnescape(p); err == nil {
+		return u
+	}
+	return p
+}
-- 
2.43.0


From 0e6e295fcf83dfc90579027996d75136aff8816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:52 +0000
Subject: [PATCH 16/60] fix: quote purge patterns without a wildcard

---
 pkg/provider/inmemory.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 06a1ca4..94b1907 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -281,10 +281,6 @@ func (c *inMemoryCache) Size() int {
 // TODO: check if we should use a module for this or implement it ourselves and not use regex.
 func wildcardToRegex(pattern string) string {
 	parts := strings.Split(pattern, "*")
-	if len(parts) == 1 {
-		// No *'s, return exact match pattern.
-		return "^" + pattern + "$"
-	}
 	var result strings.Builder
 	for i, p := range parts {
 		// Replace * with .*
@@ -294,5 +290,5 @@ func wildcardToRegex(pattern string) string {
 		// Quote any regular expression meta character.
 		_, _ = result.WriteString(regexp.QuoteMeta(p))
 	}
-	return "^" + result.String() + "$"
+	return "(?s)^" + result.String() + "$"
 }
-- 
2.43.0


From be66d688bf24ae3ab6acd6584914d62f0ec9976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:18 +0000
Subject: [PATCH 17/60] fix: release the ttl of evicted items and guard all
 in-memory cache operations

---
 pkg/provider/inmemory.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 94b1907..de33f7b 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -144,6 +144,7 @@ func NewInMemoryCache(config InMemoryCacheConfig) (Provider, error) {
 // onEvict is the eviction callback.
 func (c *inMemoryCache) onEvict(key string, val []byte) {
 	c.curSize -= itemSize(val)
+	delete(c.ttl, key)
 }
 
 // Get retrieves an element based on the provided key.
@@ -235,6 +236,9 @@ func (c *inMemoryCache) _delete(_ context.Context, key string) bool {
 // Keys returns a slice of the keys in the cache, from oldest to newest. It doesn't check TTL
 // of the returned keys (TODO).
 func (c *inMemoryCache) Keys(_ context.Context, prefix string) []string {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+
 	if prefix == "" {
 		return c.inner.Keys()
 	}
@@ -257,9 +261,13 @@ func (c *inMemoryCache) Purge(ctx context.Context, pattern string) error {
 	if err != nil {
 		return err
 	}
+
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
 	for _, k := range c.inner.Keys() {
 		if r.MatchString(k) {
-			c.Delete(ctx, k)
+			c._delete(ctx, k)
 		}
 	}
 	return nil
@@ -267,12 +275,18 @@ func (c *inMemoryCache) Purge(ctx context.Context, pattern string) error {
 
 // Flush deletes all elements from the cache.
 func (c *inMemoryCache) Flush(ctx context.Context) error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
 	c.reset()
 	return nil
 }
 
 // Size returns the number of entries currently stored in the Cache.
 func (c *inMemoryCache) Size() int {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+
 	return c.inner.Len()
 }
 
-- 
2.43.0


From 7b3f28f130f7c145dc2191881d699b142486c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 18/60] fix: evict items by ttl if no default ttl is configured

---
 pkg/provider/inmemory.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index de33f7b..d909b3c 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -100,9 +100,8 @@ func (c *InMemoryCacheConfig) Sanitize() {
 	}
 	if len(c.DefaultTTL) == 0 {
 		c.DefaultTTL = DefaultInMemoryCacheConfig.DefaultTTL
-	} else {
-		c.TTLEviction = c.DefaultTTL != "-1"
 	}
+	c.TTLEviction = c.DefaultTTL != "-1"
 }
 
 // NewInMemoryCache creates a new thread-safe LRU in memory cache.
-- 
2.43.0


From d0f352129f0613ef269ba7bab8f25879b8fe36b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 19/60] fix: remove the outdated value if a new one is too
 large to be stored

---
 pkg/provider/inmemory.go     | 1 +
 pkg/provider/redis_client.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index d909b3c..190efab 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -174,6 +174,7 @@ func (c *inMemoryCache) Set(key string, value []byte, ttl time.Duration) {
 	size := itemSize(value)
 	if size > c.maxItemSizeBytes {
 		log.Debug().Msg("Item is bigger than maxItemSize")
+		c.inner.Remove(key) // the previous value is outdated.
 		return
 	}
 
diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index ea37fbb..2efe432 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -127,7 +127,8 @@ func (c *redisClient) Fetch(ctx context.Context, key string) []byte {
 // Store stores a key and value into Redis.
 func (c *redisClient) Store(key string, value []byte, ttl time.Duration) error {
 	if c.config.MaxItemSize > 0 && len(value) > c.config.MaxItemSize {
-		return ErrRedisMaxItemSize
+		// The previous value is outdated.
+		return errors.Join(ErrRedisMaxItemSize, c.Del(context.Background(), key).Err())
 	}
 	_, err := c.Set(context.Background(), key, value, ttl).Result()
 	return err
-- 
2.43.0


From d4fa8efaefa4cc55c5b52360bb00c958b2b800ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 20/60] fix: change both tiers of the layered cache atomically

---
 pkg/provider/cached.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/provider/cached.go b/pkg/provider/cached.go
index e465220..d89874c 100644
--- a/pkg/provider/cached.go
+++ b/pkg/provider/cached.go
@@ -43,6 +43,8 @@ type Cached struct {
 	// ttl is the default TTL.
 	ttl time.Duration
 
+	// mu keeps the tiers consistent: no operation may run in between the changes to
+	// the inner and the outer tier, or an outdated value is kept in the outer tier.
 	mu sync.Mutex
 }
 
@@ -97,17 +99,17 @@ func (c *Cached) Get(ctx context.Context, key string) []byte {
 
 // Set adds an element to the cache.
 func (c *Cached) Set(key string, value []byte, ttl time.Duration) {
-	c.inner.Set(key, value, ttl)
 	c.mu.Lock()
 	defer c.mu.Unlock()
+	c.inner.Set(key, value, ttl)
 	c.outer.Set(key, value, ttl)
 }
 
 // Delete deletes an element in the cache.
 func (c *Cached) Delete(ctx context.Context, key string) bool {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.outer.Delete(ctx, key)
-	c.mu.Unlock()
 	return c.inner.Delete(ctx, key)
 }
 
@@ -119,16 +121,16 @@ func (c *Cached) Keys(ctx context.Context, prefix string) []string {
 // Purge purges all keys matching the spedified pattern from the cache.
 func (c *Cached) Purge(ctx context.Context, pattern string) error {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_ = c.outer.Purge(ctx, pattern)
-	c.mu.Unlock()
 	return c.inner.Purge(ctx, pattern)
 }
 
 // Flush deletes all elements from the cache.
 func (c *Cached) Flush(ctx context.Context) error {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_ = c.outer.Flush(ctx)
-	c.mu.Unlock()
 	return c.inner.Flush(ctx)
 }
 
-- 
2.43.0


From 5feb2db846c67e253b358b80037630203d1e98ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 21/60] fix: treat only * as special in redis key patterns

---
 pkg/provider/redis_client.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index 2efe432..4b638e7 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -82,6 +82,15 @@ func (c *RedisClientConfig) Validate() error {
 	return nil
 }
 
+var (
+	// patternEscaper quotes the characters that are special in Redis patterns,
+	// except for the wildcard `*`.
+	patternEscaper = strings.NewReplacer(`\`, `\\`, `?`, `\?`, `[`, `\[`, `]`, `\]`)
+
+	// prefixEscaper quotes all the characters that are special in Redis patterns.
+	prefixEscaper = strings.NewReplacer(`\`, `\\`, `?`, `\?`, `[`, `\[`, `]`, `\]`, `*`, `\*`)
+)
+
 // redisClient wraps a Redis Universal Client.
 type redisClient struct {
 	redis.UniversalClient
@@ -159,7 +168,7 @@ func (c *redisClient) Delete(ctx context.Context, key string) error {
 // Keys returns a slice of cache keys.
 func (c *redisClient) Keys(ctx context.Context, prefix string) []string {
 	var keys []string
-	iter := c.Scan(ctx, 0, prefix+"*", 0).Iterator()
+	iter := c.Scan(ctx, 0, prefixEscaper.Replace(prefix)+"*", 0).Iterator()
 	for iter.Next(ctx) {
 		keys = append(keys, iter.Val())
 	}
@@ -177,10 +186,10 @@ func (c *redisClient) Stop() {
 	}
 }
 
-// Purge purges keys matching the specified pattern from the cache. If the pattern is
+// Purge purges keys matching the specified pattern from the cache, where only `*` is special. If the pattern is
 // empty, all keys will be removed from the cache, similar to a `Flush`.
 func (c *redisClient) Purge(ctx context.Context, pattern string) error {
-	iter := c.Scan(ctx, 0, pattern, 0).Iterator()
+	iter := c.Scan(ctx, 0, patternEscaper.Replace(pattern), 0).Iterator()
 
 	for iter.Next(ctx) {
 		key := iter.Val()
-- 
2.43.0


From 863989f29332fb5e3163f9346a1afa771ae66e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 22/60] fix: do not coalesce requests that bypass the cache

---
 pkg/server/middleware/coalesce.go  | 13 +++++++++++--
 pkg/server/middleware/httpcache.go |  7 +++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 8f6cac4..1bf9f55 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -29,6 +29,7 @@ import (
 	"net/http/httputil"
 	"sync"
 
+	"github.com/kacheio/kache/pkg/cache"
 	"github.com/rs/zerolog/log"
 )
 
@@ -67,14 +68,22 @@ func NewCoalesced(next http.RoundTripper) http.RoundTripper {
 	}
 }
 
+// bypass specifies if the response to the given request must not be shared.
+func (coalescer *requestCoalescer) bypass(req *http.Request) bool {
+	if b, ok := coalescer.next.(interface{ Bypass(*http.Request) bool }); ok {
+		return b.Bypass(req)
+	}
+	return !cache.IsCacheableRequest(req)
+}
+
 // RoundTrip executes and returns the given request and coalesces
 // concurrent GET requests. It ensures that only one execution call is
 // in-flight for a given key at a time. Following duplicate or similar (same URL)
 // requests are blocked until the original request completes. The resulting
 // response is shared with all waiting requests.
 func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response, error) {
-	// Only coalesce GET requests.
-	if req.Method != http.MethodGet {
+	// Only coalesce GET requests that may be answered with a shared response.
+	if req.Method != http.MethodGet || coalescer.bypass(req) {
 		return coalescer.next.RoundTrip(req)
 	}
 
diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index e64b6e0..f9f913e 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -90,6 +90,13 @@ func NewCachedTransport(c *cache.HttpCache, reg prometheus.Registerer) *Transpor
 	return &Transport{Transport: transport, Cache: c, currentTime: time.Now, metrics: m}
 }
 
+// Bypass specifies if the given request bypasses the cache.
+func (t *Transport) Bypass(req *http.Request) bool {
+	return t.Cache.IsExcludedPath(req.URL.Path) ||
+		t.Cache.IsExcludedHeader(req.Header) ||
+		!cache.IsCacheableRequest(req)
+}
+
 // RoundTrip issues a http roundtrip and applies the http caching logic.
 func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error) {
 	ctx := req.Context()
-- 
2.43.0


From 7f9ba0ff8e8399a7d74812e1fd53290674964bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:58 +0000
Subject: [PATCH 23/60] fix: do not share private responses with coalesced
 requests

---
 pkg/server/middleware/coalesce.go | 33 +++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 1bf9f55..28f2535 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -27,6 +27,7 @@ import (
 	"bytes"
 	"net/http"
 	"net/http/httputil"
+	"strings"
 	"sync"
 
 	"github.com/kacheio/kache/pkg/cache"
@@ -58,6 +59,9 @@ type call struct {
 	coalesced bool
 	resp      []byte
 	err       error
+
+	// private indicates that the response must not be shared.
+	private bool
 }
 
 // NewCoalesced returns a coalesced http roundtripper.
@@ -76,6 +80,12 @@ func (coalescer *requestCoalescer) bypass(req *http.Request) bool {
 	return !cache.IsCacheableRequest(req)
 }
 
+// isPrivate specifies if the response is meant for the requesting client only.
+func isPrivate(resp *http.Response) bool {
+	cacheControl := strings.Join(resp.Header.Values(cache.HeaderCacheControl), ", ")
+	return cache.ParseResponseCacheControl(cacheControl).NoStore
+}
+
 // RoundTrip executes and returns the given request and coalesces
 // concurrent GET requests. It ensures that only one execution call is
 // in-flight for a given key at a time. Following duplicate or similar (same URL)
@@ -93,12 +103,6 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	if ok {
 		// At this point a similar request is already in-flight. Wait for response.
 
-		// Close the request body, as this request is put on hold here waiting for
-		// the initial request's response.
-		if req.Body != nil {
-			defer req.Body.Close()
-		}
-
 		// Lock the inflight request to prevent it from being removed before
 		// any waiting call routines are done processing.
 		inflight.L.Lock()
@@ -118,6 +122,16 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 		inflight.L.Unlock()
 
 		// Initial request completed.
+		if inflight.private {
+			// The response is not meant for this request.
+			return coalescer.next.RoundTrip(req)
+		}
+
+		// Close the request body, as this request is not executed.
+		if req.Body != nil {
+			defer req.Body.Close()
+		}
+
 		if inflight.err != nil {
 			return nil, inflight.err
 		}
@@ -150,9 +164,12 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	// Wake up any suspended callers waiting for this response.
 	inflight.L.Lock()
 	if inflight.coalesced {
-		if err != nil {
+		switch {
+		case err != nil:
 			inflight.resp, inflight.err = nil, err
-		} else {
+		case isPrivate(resp):
+			inflight.private = true
+		default:
 			// Copy the response before releasing it to waiter(s).
 			inflight.resp, inflight.err = httputil.DumpResponse(resp, true)
 		}
-- 
2.43.0


From 46c20ab6d23d0858549b8fcae954217a33d37042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 24/60] fix: do not let a client that goes away fail or block
 coalesced requests

---
 pkg/server/middleware/coalesce.go | 122 ++++++++++++++++++------------
 1 file changed, 73 insertions(+), 49 deletions(-)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 28f2535..3e42767 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -52,16 +52,21 @@ type requestCoalescer struct {
 
 // call is an in-flight or completed singleflight request.
 type call struct {
-	*sync.Cond // rendezvous point for goroutines.
+	// done is closed when the request is completed.
+	done chan struct{}
 
-	// coalesced indicates if there are any calls waiting
-	// for the initial in-flight request's response.
+	// coalesced indicates if there are any calls waiting for the initial
+	// in-flight request's response. Guarded by the coalescer.
 	coalesced bool
 	resp      []byte
 	err       error
 
 	// private indicates that the response must not be shared.
 	private bool
+
+	// aborted indicates that the initial request did not complete for a
+	// reason that does not concern the waiting calls.
+	aborted bool
 }
 
 // NewCoalesced returns a coalesced http roundtripper.
@@ -98,39 +103,43 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	}
 
 	key := req.URL.String()
-	coalescer.Lock()
-	inflight, ok := coalescer.inflights[key]
-	if ok {
-		// At this point a similar request is already in-flight. Wait for response.
-
-		// Lock the inflight request to prevent it from being removed before
-		// any waiting call routines are done processing.
-		inflight.L.Lock()
 
-		// Unlock the coalescer to allow other requests to use it.
-		// Important: the inflight call must be locked before to
-		// guarantee no other thread can delete it.
-		coalescer.Unlock()
+	for {
+		coalescer.Lock()
+		inflight, ok := coalescer.inflights[key]
+		if !ok {
+			// No similar request in flight (common case).
+			// Register a new call and execute the request.
+			inflight = &call{done: make(chan struct{})}
+			coalescer.inflights[key] = inflight
+			coalescer.Unlock()
+
+			return coalescer.execute(req, key, inflight)
+		}
 
-		// Mark that there is at least one call awaiting a shared response.
+		// At this point a similar request is already in-flight. Mark that there
+		// is at least one call awaiting a shared response.
 		inflight.coalesced = true
+		coalescer.Unlock()
 
-		// Suspend execution of current thread until inflight request is processed.
-		inflight.Wait()
-
-		// Resume execution of waiting thread (woken up by initial thread broadcast).
-		inflight.L.Unlock()
+		// Wait for the initial request to complete.
+		select {
+		case <-inflight.done:
+		case <-req.Context().Done():
+			closeBody(req)
+			return nil, req.Context().Err()
+		}
 
-		// Initial request completed.
+		if inflight.aborted {
+			continue
+		}
 		if inflight.private {
 			// The response is not meant for this request.
 			return coalescer.next.RoundTrip(req)
 		}
 
 		// Close the request body, as this request is not executed.
-		if req.Body != nil {
-			defer req.Body.Close()
-		}
+		closeBody(req)
 
 		if inflight.err != nil {
 			return nil, inflight.err
@@ -143,40 +152,38 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 		}
 		return resp, nil
 	}
+}
 
-	// No similar request in flight (common case).
-
-	// Register a new call and execute the request.
-	inflight = &call{Cond: sync.NewCond(&sync.Mutex{})}
-	coalescer.inflights[key] = inflight
-	coalescer.Unlock()
+// execute executes the initial request and hands the response over to any waiting calls.
+func (coalescer *requestCoalescer) execute(req *http.Request, key string, inflight *call) (*http.Response, error) {
+	// Wake up any suspended callers waiting for this response, even if the execution panics.
+	inflight.aborted = true
+	defer func() {
+		coalescer.remove(key, inflight)
+		close(inflight.done)
+	}()
 
 	// Execute e2e request.
 	resp, err := coalescer.next.RoundTrip(req)
 
 	// Upstream response received. Remove inflight request from the map.
 	// Important: Removing the inflight request before waking up waiting
-	// calls is crucial, otherwise race conditions and memory leaks occur.
-	coalescer.Lock()
-	delete(coalescer.inflights, key)
-	coalescer.Unlock()
-
-	// Wake up any suspended callers waiting for this response.
-	inflight.L.Lock()
-	if inflight.coalesced {
-		switch {
-		case err != nil:
-			inflight.resp, inflight.err = nil, err
-		case isPrivate(resp):
-			inflight.private = true
-		default:
+	// calls is crucial, as no further calls may wait for it.
+	coalesced := coalescer.remove(key, inflight)
+
+	if coalesced && err == nil {
+		if inflight.private = isPrivate(resp); !inflight.private {
 			// Copy the response before releasing it to waiter(s).
-			inflight.resp, inflight.err = httputil.DumpResponse(resp, true)
+			body := resp.Body
+			if inflight.resp, err = httputil.DumpResponse(resp, true); err != nil {
+				_ = body.Close()
+			}
 		}
-		// Wake up all waiting routines.
-		inflight.Broadcast()
 	}
-	inflight.L.Unlock()
+
+	// The waiting calls do not share the fate of a client that went away.
+	inflight.aborted = err != nil && req.Context().Err() != nil
+	inflight.err = err
 
 	if err != nil {
 		log.Error().Err(err).Str("key", key).Send()
@@ -185,3 +192,20 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 
 	return resp, nil
 }
+
+// remove removes the inflight request, and reports if there are any calls waiting for it.
+func (coalescer *requestCoalescer) remove(key string, inflight *call) bool {
+	coalescer.Lock()
+	defer coalescer.Unlock()
+	if coalescer.inflights[key] == inflight {
+		delete(coalescer.inflights, key)
+	}
+	return inflight.coalesced
+}
+
+// closeBody closes the body of a request that is not executed.
+func closeBody(req *http.Request) {
+	if req.Body != nil {
+		_ = req.Body.Close()
+	}
+}
-- 
2.43.0


From 2be515bf6134b8c92b1cc747e21a74bf3a3a4dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 25/60] fix: do not panic when redis fails to list keys

---
 pkg/provider/redis_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index 4b638e7..4c23bd8 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -173,7 +173,7 @@ func (c *redisClient) Keys(ctx context.Context, prefix string) []string {
 		keys = append(keys, iter.Val())
 	}
 	if err := iter.Err(); err != nil {
-		panic(err)
+		log.Error().Err(err).Msg("Error listing keys from redis")
 	}
 	return keys
 }
-- 
2.43.0


From 02798e034fd7b91b0ee97a1be89d70c8e9c8eb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:36 +0000
Subject: [PATCH 26/60] fix: make strict the default cache mode as documented

---
 pkg/config/loader.go   | 5 ++++-
 pkg/server/handlers.go | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 718f540..c7f0991 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -32,6 +32,7 @@ import (
 	"sync/atomic"
 	"time"
 
+	"github.com/kacheio/kache/pkg/cache"
 	"github.com/rs/zerolog/log"
 	"gopkg.in/yaml.v3"
 )
@@ -82,7 +83,9 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	dec := yaml.NewDecoder(bytes.NewReader(buf))
 	dec.KnownFields(true)
 
-	config := &Configuration{}
+	config := &Configuration{
+		HttpCache: &cache.HttpCacheConfig{Strict: true}, // strict is the default mode.
+	}
 	if err := dec.Decode(config); err != nil {
 		return false, err
 	}
diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 66d955f..8e4586c 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -113,7 +113,7 @@ func (s *Server) CacheConfigUpdateHandler(w http.ResponseWriter, r *http.Request
 		return
 	}
 
-	var c cache.HttpCacheConfig
+	c := cache.HttpCacheConfig{Strict: true} // strict is the default mode.
 	dec := yaml.NewDecoder(bytes.NewReader(body))
 	if err := dec.Decode(&c); err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
-- 
2.43.0


From 2b0d1f6e7d809d328a8720e72633688ca70693a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:41 +0000
Subject: [PATCH 27/60] fix: apply access lists that contain networks only

---
 pkg/api/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index 9361c4b..bcae033 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -86,7 +86,7 @@ func NewIPFilter(whitelist string) (*IPFilter, error) {
 // request bypasses the filter.
 func (f *IPFilter) Wrap(next http.HandlerFunc) http.HandlerFunc {
 	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
-		if len(f.allowedIPs) == 0 {
+		if len(f.allowedIPs) == 0 && len(f.allowedCIDRs) == 0 {
 			next(w, r)
 			return
 		}
-- 
2.43.0


From e94d614a21beffaae4d87212c185193f14f1851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:59 +0000
Subject: [PATCH 28/60] fix: recognise IPv6 peers in access lists

---
 pkg/api/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index bcae033..5e0c79c 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -129,8 +129,8 @@ func originalIP(req *http.Request) (netip.Addr, error) {
 	// The default is the originating IP. But, we try to find better
 	// options as this is almost never the right IP we're looking for.
 	addr := ""
-	if parts := strings.Split(req.RemoteAddr, ":"); len(parts) == 2 {
-		addr = parts[0]
+	if host, _, err := net.SplitHostPort(req.RemoteAddr); err == nil {
+		addr = host
 	}
 
 	// If we have a forwarded-for header, take the address from there.
-- 
2.43.0


From 8cb12288be8af578813fafbf128280d9e346054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:20 +0000
Subject: [PATCH 29/60] fix: consider all X-Forwarded-For lines in access lists

---
 pkg/api/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index 5e0c79c..4915ed2 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -134,7 +134,7 @@ func originalIP(req *http.Request) (netip.Addr, error) {
 	}
 
 	// If we have a forwarded-for header, take the address from there.
-	if xff := strings.Trim(req.Header.Get("X-Forwarded-For"), ","); len(xff) > 0 {
+	if xff := strings.Trim(strings.Join(req.Header.Values("X-Forwarded-For"), ","), ","); len(xff) > 0 {
 		addrs := strings.Split(xff, ",")
 		last := strings.TrimSpace(addrs[len(addrs)-1])
 		return netip.ParseAddr(last)
-- 
2.43.0


From 7411c19217675ec1a1dfd39969e8541ccc50717b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:42 +0000
Subject: [PATCH 30/60] fix: answer with 503 if no upstream matches the request

---
 pkg/server/server.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index af6aa14..1179643 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -138,16 +138,15 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 func errorHandler(w http.ResponseWriter, req *http.Request, err error) {
 	status := http.StatusInternalServerError
 
+	// The request is canceled with a cause if no target matches, whatever error the transport reports for it.
+	cErr := context.Cause(req.Context())
+
 	switch {
-	case errors.Is(err, context.Canceled):
-		ctx := req.Context()
-		cErr := context.Cause(ctx)
-		if errors.Is(cErr, ErrMatchingTarget) {
-			status = http.StatusServiceUnavailable
-			err = cErr
-		} else { // client canceled request
-			status = http.StatusBadGateway
-		}
+	case errors.Is(cErr, ErrMatchingTarget):
+		status = http.StatusServiceUnavailable
+		err = cErr
+	case errors.Is(err, context.Canceled): // client canceled request
+		status = http.StatusBadGateway
 	case errors.Is(err, io.EOF):
 		status = http.StatusBadGateway
 	default: // connection error
-- 
2.43.0


From 7b5eb91cf2aab75a0910d75c685ff43b777f291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:40 +0000
Subject: [PATCH 31/60] fix: keep the escaped request path for upstreams with a
 base path

---
 pkg/server/server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 1179643..afd2207 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -30,6 +30,7 @@ import (
 	"net"
 	"net/http"
 	"net/http/httputil"
+	"net/url"
 	"strings"
 	"time"
 
@@ -188,8 +189,11 @@ func (s *Server) Director() func(req *http.Request) {
 		req.URL.Scheme = upstream.Scheme
 		req.URL.Host = upstream.Host
 
-		// Path is forwarded as-is.
-		req.URL.Path = singleJoiningSlash(upstream.Path, req.URL.Path)
+		// Path is forwarded as-is, including its escaped form.
+		req.URL.RawPath = singleJoiningSlash(upstream.EscapedPath(), req.URL.EscapedPath())
+		if p, err := url.PathUnescape(req.URL.RawPath); err == nil {
+			req.URL.Path = p
+		}
 
 		// Pass host header
 		req.Host = req.URL.Host
-- 
2.43.0


From e942e7fa252202f9744a3498561303a23120cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 32/60] fix: keep the default cache config if the cache section
 is empty

A 'cache:' key without a value decodes to a nil pointer and replaces the
default; applying that config crashes the instance.
---
 pkg/config/loader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index c7f0991..5c7c58c 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -89,6 +89,9 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	if err := dec.Decode(config); err != nil {
 		return false, err
 	}
+	if config.HttpCache == nil { // an empty cache section.
+		config.HttpCache = &cache.HttpCacheConfig{Strict: true}
+	}
 
 	l.config.Store(config)
 
-- 
2.43.0


From a6e69fa09c50c7a8f019b7d480630afe5c0d965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 33/60] fix: keep the checksum of the loaded config when a load
 fails

The checksum was replaced before the file was decoded: after a failed load,
the next one reported the broken file as unchanged, and going back to the
previous content reported a change. It was also accessed without a lock by
concurrent loads (watch, signal, API).
---
 pkg/config/loader.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 5c7c58c..21e34c5 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -29,6 +29,7 @@ import (
 	"encoding/hex"
 	"fmt"
 	"os"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -46,6 +47,7 @@ type Loader struct {
 
 	config     atomic.Pointer[Configuration]
 	configHash []byte
+	mu         sync.Mutex // serializes loading and guards configHash.
 
 	Events chan bool
 	done   chan struct{}
@@ -68,6 +70,9 @@ func NewLoader(path string, watch bool, interval time.Duration) (*Loader, error)
 
 // Load reads the YAML-formatted config.
 func (l *Loader) Load(ctx context.Context) (bool, error) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	buf, err := os.ReadFile(l.path)
 	if err != nil {
 		return false, err
@@ -78,7 +83,6 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	if bytes.Equal(l.configHash, hash) {
 		return false, nil
 	}
-	l.configHash = hash
 
 	dec := yaml.NewDecoder(bytes.NewReader(buf))
 	dec.KnownFields(true)
@@ -94,6 +98,7 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	}
 
 	l.config.Store(config)
+	l.configHash = hash
 
 	return true, nil
 }
@@ -110,6 +115,9 @@ func (l *Loader) Path() string {
 
 // Checksum returns the calculated checksum of the config.
 func (l *Loader) Checksum() string {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	return hex.EncodeToString(l.configHash)
 }
 
-- 
2.43.0


From ab56fbc48fb1d6d7f6d948e05c5c6e35b275f147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 34/60] fix: report a config change made before the watch
 starts

The initial load of Watch picked up a file changed since NewLoader, but
sent no event, so the change was never applied.
---
 pkg/config/loader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 21e34c5..444b1b6 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -128,10 +128,15 @@ func (l *Loader) AutoReload() bool {
 
 // Watch watches and reloads the config file if changed.
 func (l *Loader) Watch(ctx context.Context) error {
-	if _, err := l.Load(ctx); err != nil {
+	changed, err := l.Load(ctx)
+	if err != nil {
 		return err
 	}
 	go func() {
+		if changed {
+			// The file was changed since the loader was created.
+			l.notifyChange()
+		}
 		tick := time.NewTicker(l.watchInterval)
 		defer tick.Stop()
 		for {
-- 
2.43.0


From 32b98567259395258c7301b20d59d8f94bf5f7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 35/60] fix: do not crash when a cluster message cannot be
 delivered

A failed request has no response: the worker dereferenced nil.
---
 pkg/cluster/rqueue.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index 5099c0f..21bca6f 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -100,6 +100,7 @@ func (q *RequestQueue) process() {
 					Str("url", msg.Request.URL.String()).
 					Msg("Error request")
 				q.retry(msg)
+				continue
 			}
 			if resp.StatusCode >= 400 && resp.StatusCode <= 599 {
 				log.Error().Err(err).
@@ -108,14 +109,12 @@ func (q *RequestQueue) process() {
 					Msg("Error response")
 				q.retry(msg)
 			}
-			if resp != nil {
-				log.Debug().Str("url", msg.Request.URL.String()).Int("status", resp.StatusCode).
-					Msg("Message sent")
+			log.Debug().Str("url", msg.Request.URL.String()).Int("status", resp.StatusCode).
+				Msg("Message sent")
 
-				// Discard and close body to reuse connection.
-				_, _ = io.Copy(io.Discard, resp.Body)
-				_ = resp.Body.Close()
-			}
+			// Discard and close body to reuse connection.
+			_, _ = io.Copy(io.Discard, resp.Body)
+			_ = resp.Body.Close()
 		case <-q.done:
 			return
 		}
-- 
2.43.0


From 37ce8fd1721e632795b6ecc7d62a204b27226652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 36/60] fix: send the complete body again when a cluster
 message is retried

The body was consumed by the first attempt, so that a retried config update
was empty.
---
 pkg/cluster/rqueue.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index 21bca6f..e9e6a99 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -23,6 +23,7 @@
 package cluster
 
 import (
+	"bytes"
 	"io"
 	"net/http"
 	"sync"
@@ -94,6 +95,12 @@ func (q *RequestQueue) process() {
 	for {
 		select {
 		case msg := <-q.Queue:
+			if err := rewind(msg.Request); err != nil {
+				log.Error().Err(err).
+					Str("url", msg.Request.URL.String()).
+					Msg("Error reading request body")
+				continue
+			}
 			resp, err := client.Do(msg.Request)
 			if err != nil {
 				log.Error().Err(err).
@@ -121,6 +128,29 @@ func (q *RequestQueue) process() {
 	}
 }
 
+// rewind sets the request to send its complete body, also if it was sent before.
+func rewind(req *http.Request) error {
+	if req.Body == nil || req.Body == http.NoBody {
+		return nil
+	}
+	if req.GetBody == nil {
+		buf, err := io.ReadAll(req.Body)
+		if err != nil {
+			return err
+		}
+		_ = req.Body.Close()
+		req.GetBody = func() (io.ReadCloser, error) {
+			return io.NopCloser(bytes.NewReader(buf)), nil
+		}
+	}
+	body, err := req.GetBody()
+	if err != nil {
+		return err
+	}
+	req.Body = body
+	return nil
+}
+
 func (q *RequestQueue) retry(msg Message) {
 	msg.Attempt++
 	if msg.Attempt < q.Options.MaxRetries {
-- 
2.43.0


From 6ca018b1d691a5c66c11c3a556e4cc0c914efce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 37/60] fix: bound the time of a cluster message

A peer that does not answer occupied a worker forever: messages to other
peers were blocked, and stopping the queue did not terminate. Retries do
not wait for a stopped queue either.
---
 pkg/cluster/rqueue.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index e9e6a99..f3af5a6 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -32,6 +32,9 @@ import (
 	"github.com/rs/zerolog/log"
 )
 
+// requestTimeout bounds a single attempt to deliver a message.
+const requestTimeout = 10 * time.Second
+
 // Message wraps a HTTP request that gets processed by the queue.
 type Message struct {
 	Request *http.Request
@@ -89,7 +92,7 @@ func (q *RequestQueue) Stop() {
 func (q *RequestQueue) process() {
 	defer q.wg.Done()
 
-	client := &http.Client{}
+	client := &http.Client{Timeout: requestTimeout}
 	client.Transport = http.DefaultTransport
 
 	for {
@@ -158,7 +161,10 @@ func (q *RequestQueue) retry(msg Message) {
 			log.Debug().Str("url", msg.Request.RequestURI).Int("attempt", msg.Attempt).
 				Msgf("Message retry in %v", q.Options.Backoff)
 			time.Sleep(q.Options.Backoff)
-			q.Queue <- msg
+			select {
+			case q.Queue <- msg:
+			case <-q.done:
+			}
 		}()
 	}
 }
-- 
2.43.0


From f5675ba227b6bcb9a8949c010fd8e00611fcc5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 38/60] fix: list cluster endpoints per subset and without
 target reference

The port of a subset was applied to following subsets that do not have the
named port, and an address without a target reference crashed.
---
 pkg/cluster/kubernetes.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index d89c8cd..8c2ae84 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -102,12 +102,10 @@ func (c *client) Endpoints(portname string) []Endpoint {
 		return nil
 	}
 
-	var (
-		port      int32
-		endpoints []Endpoint
-	)
+	var endpoints []Endpoint
 
 	for _, e := range eps.Subsets {
+		var port int32 // each subset has its own ports.
 		for _, p := range e.Ports {
 			if p.Name != portname {
 				continue
@@ -119,8 +117,12 @@ func (c *client) Endpoints(portname string) []Endpoint {
 		}
 		for _, addr := range e.Addresses {
 			// TODO: check endpoint/pod is healthy.
+			name := ""
+			if addr.TargetRef != nil {
+				name = addr.TargetRef.Name
+			}
 			endpoints = append(endpoints, Endpoint{
-				Name: addr.TargetRef.Name,
+				Name: name,
 				Host: addr.IP,
 				Port: int(port),
 			})
-- 
2.43.0


From feddfd98ac1838668c09eb46bf2e21f45b2eb0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 39/60] fix: broadcast to IPv6 cluster endpoints

The address was not enclosed in brackets, so that the URL was invalid.
---
 pkg/cluster/kubernetes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 8c2ae84..14dfe77 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -27,9 +27,11 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"net"
 	"net/http"
 	"os"
 	"path/filepath"
+	"strconv"
 	"time"
 
 	"github.com/rs/zerolog/log"
@@ -145,7 +147,8 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 
 	for _, ep := range endpoints {
 		// Prepare endpoint request.
-		url := fmt.Sprintf("%s://%s:%v%s", "http", ep.Host, ep.Port, path)
+		host := net.JoinHostPort(ep.Host, strconv.Itoa(ep.Port))
+		url := fmt.Sprintf("%s://%s%s", "http", host, path)
 		out, err := http.NewRequest(method, url, io.NopCloser(bytes.NewBuffer(body)))
 		if err != nil {
 			log.Error().Err(err).Send()
-- 
2.43.0


From 3232e69718b0ba96f056499fec436b9ad3b1450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 40/60] fix: broadcast the address of the client in a form
 peers understand

X-Forwarded-For was set to the remote address with its port, which the
access list of a peer cannot parse, and replaced the address the client was
admitted by.
---
 pkg/cluster/kubernetes.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 14dfe77..e82d739 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -32,6 +32,7 @@ import (
 	"os"
 	"path/filepath"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/rs/zerolog/log"
@@ -155,7 +156,13 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 			continue
 		}
 		out.Header = req.Header.Clone()
-		out.Header.Set("X-Forwarded-For", req.RemoteAddr)
+		forwarded := strings.Trim(strings.Join(out.Header.Values("X-Forwarded-For"), ","), ",")
+		if forwarded == "" && out.Header.Get("X-Real-Ip") == "" {
+			// Tell the address of the client, unless the request already does.
+			if host, _, err := net.SplitHostPort(req.RemoteAddr); err == nil {
+				out.Header.Set("X-Forwarded-For", host)
+			}
+		}
 		out.Header.Set("X-Kache-Cluster", "Broadcast")
 		out.Host = req.Host
 
-- 
2.43.0


From 4891e5110f1de2513c4e346c8e8c12f7af0bbd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 41/60] fix: broadcast a purge if the API prefix has no leading
 slash

The API serves the prefix with a slash added, but the broadcast URL was
built without and was invalid.
---
 pkg/server/handlers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 8e4586c..a9d87e6 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -137,5 +137,5 @@ func (s *Server) broadcastPurge(req *http.Request) {
 	}
 
 	s.cluster.Broadcast(req, "api", http.MethodDelete,
-		path.Join(s.cfg.API.GetPrefix(), "/cache/invalidate"))
+		path.Join("/", s.cfg.API.GetPrefix(), "/cache/invalidate"))
 }
-- 
2.43.0


From 314d8b2abdbc271df3187ff984cad031495acf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 42/60] fix: apply reloaded configurations one at a time, the
 latest last

---
 pkg/kache/kache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/kache/kache.go b/pkg/kache/kache.go
index 2eced2c..c454814 100644
--- a/pkg/kache/kache.go
+++ b/pkg/kache/kache.go
@@ -27,6 +27,7 @@ import (
 	"net/http"
 	"os"
 	"os/signal"
+	"sync"
 	"syscall"
 	"time"
 
@@ -44,6 +45,7 @@ import (
 type Kache struct {
 	Config *config.Configuration
 	loader *config.Loader
+	mu     sync.Mutex // serializes applying a reloaded config.
 
 	Registerer prometheus.Registerer
 
@@ -147,6 +149,9 @@ func (t *Kache) reloadConfig(ctx context.Context) error {
 
 // applyConfig applies the config to modules.
 func (t *Kache) applyConfig() {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+
 	t.Config = t.loader.Config()
 	t.Cache.UpdateConfig(t.Config.HttpCache)
 }
-- 
2.43.0


From 579bea822508a1f9622c71f57b24ead0254b9ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 43/60] fix: compile cache rules into a copy of the given
 configuration

---
 pkg/cache/httpcache.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 06723f4..cb7430b 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -30,6 +30,7 @@ import (
 	"net/http"
 	"net/http/httputil"
 	"regexp"
+	"slices"
 	"strings"
 	"sync/atomic"
 	"time"
@@ -80,6 +81,18 @@ type HttpCacheConfig struct {
 	Exclude *Exclude `yaml:"exclude" json:"exclude"`
 }
 
+// clone returns a copy of the config that shares none of the parts holding matchers.
+func (c *HttpCacheConfig) clone() *HttpCacheConfig {
+	config := *c
+	config.Timeouts = slices.Clone(c.Timeouts)
+	if c.Exclude != nil {
+		exclude := *c.Exclude
+		exclude.Content = slices.Clone(c.Exclude.Content)
+		config.Exclude = &exclude
+	}
+	return &config
+}
+
 // Timeout holds the custom TTL configuration
 type Timeout struct {
 	// Path is the path the ttl is applied to. String or Regex.
@@ -156,7 +169,10 @@ func (c *HttpCache) loadConfig() *HttpCacheConfig {
 }
 
 // UpdateConfig updates the cache config in a concurrent safe way.
-func (c *HttpCache) UpdateConfig(config *HttpCacheConfig) {
+func (c *HttpCache) UpdateConfig(cfg *HttpCacheConfig) {
+	// Compile into a copy, the given config might be in use.
+	config := cfg.clone()
+
 	// Compile custom timeout matchers.
 	for i, t := range config.Timeouts {
 		r, err := regexp.Compile(t.Path)
-- 
2.43.0


From 1afae00e6a703bb7badddbb1b5a10681f92b68ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:58 +0000
Subject: [PATCH 44/60] fix: license tool fails if it cannot do its work

---
 tools/license/main.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tools/license/main.go b/tools/license/main.go
index ee32648..b04cfd7 100644
--- a/tools/license/main.go
+++ b/tools/license/main.go
@@ -174,13 +174,13 @@ func main() {
 
 	if *root == "" {
 		fmt.Println("Please provide the root directory path using the -dir flag")
-		return
+		os.Exit(1)
 	}
 
 	license, err := readLicense(*licenseFile)
 	if err != nil {
 		fmt.Printf("Error reading license file: %v\n", err)
-		return
+		os.Exit(1)
 	}
 
 	var filesToUpdate []string
@@ -210,7 +210,7 @@ func main() {
 
 	if err != nil {
 		fmt.Printf("Error: %v\n", err)
-		return
+		os.Exit(1)
 	}
 
 	if *check && len(filesToUpdate) > 0 {
@@ -222,11 +222,16 @@ func main() {
 	}
 
 	// Add or update license headers.
+	failed := false
 	for _, file := range filesToUpdate {
 		if err := addLicenseHeader(file, license, *force); err != nil {
 			fmt.Printf("Error adding license header to %s: %v\n", file, err)
+			failed = true
 		} else {
 			fmt.Printf("Added license header to %s\n", file)
 		}
 	}
+	if failed {
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 679682a2229b88daf0dc8df18f482b97772ab96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:02 +0000
Subject: [PATCH 45/60] fix: license tool handles regular files only

---
 tools/license/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/license/main.go b/tools/license/main.go
index b04cfd7..e670941 100644
--- a/tools/license/main.go
+++ b/tools/license/main.go
@@ -196,6 +196,11 @@ func main() {
 			return nil
 		}
 
+		// Links, pipes, etc. are no source files.
+		if !info.Mode().IsRegular() {
+			return nil
+		}
+
 		// Only add license to .go files, but exclude generated ones.
 		if !strings.HasSuffix(info.Name(), ".go") || strings.HasSuffix(info.Name(), ".pb.go") {
 			return nil
-- 
2.43.0


From 64a658737a2e3fd088635d6cdb862dfdaa5bd0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 46/60] fix: license tool recognizes the header it adds,
 whatever the license

---
 tools/license/main.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/tools/license/main.go b/tools/license/main.go
index e670941..77f2ea3 100644
--- a/tools/license/main.go
+++ b/tools/license/main.go
@@ -81,8 +81,9 @@ func makeComment(s, prefix string) (string, error) {
 	return strings.Join(lines, ""), nil
 }
 
-// hasLicenseHeader check if a file has a valid license header.
-func hasLicenseHeader(path string) bool {
+// hasLicenseHeader check if a file has a valid license header, which is either
+// the given one or one with the well-known prefix.
+func hasLicenseHeader(path, header string) bool {
 	file, err := os.Open(path)
 	if err != nil {
 		return false
@@ -94,11 +95,11 @@ func hasLicenseHeader(path string) bool {
 		return false
 	}
 
-	return strings.HasPrefix(string(data), licenseHeaderPrefix)
+	return strings.HasPrefix(string(data), licenseHeaderPrefix) || strings.HasPrefix(string(data), header)
 }
 
 // addLicenseHeader adds a license header to the source file.
-func addLicenseHeader(path string, license string, update bool) error {
+func addLicenseHeader(path string, header string, update bool) error {
 	file, err := os.OpenFile(path, os.O_RDWR, 0)
 	if err != nil {
 		return err
@@ -110,16 +111,10 @@ func addLicenseHeader(path string, license string, update bool) error {
 		return err
 	}
 
-	// Make the license a comment.
-	header, err := makeComment(license, "//")
-	if err != nil {
-		return err
-	}
-
 	// Remove existing header on update.
 	source := string(data)
 	if update {
-		source = removeLicenseHeader(source)
+		source = removeLicenseHeader(source, header)
 	}
 
 	// Prefix source with new license header.
@@ -147,7 +142,10 @@ func addLicenseHeader(path string, license string, update bool) error {
 }
 
 // removeLicenseHeader if present.
-func removeLicenseHeader(s string) string {
+func removeLicenseHeader(s, header string) string {
+	if strings.HasPrefix(s, header) {
+		return s[len(header):]
+	}
 	if !strings.HasPrefix(s, licenseHeaderPrefix) {
 		return s
 	}
@@ -183,6 +181,13 @@ func main() {
 		os.Exit(1)
 	}
 
+	// Make the license a comment.
+	header, err := makeComment(license, "//")
+	if err != nil {
+		fmt.Printf("Error reading license file: %v\n", err)
+		os.Exit(1)
+	}
+
 	var filesToUpdate []string
 	err = filepath.Walk(*root, func(path string, info os.FileInfo, err error) error {
 		if err != nil {
@@ -206,7 +211,7 @@ func main() {
 			return nil
 		}
 
-		if !hasLicenseHeader(path) || *force {
+		if !hasLicenseHeader(path, header) || *force {
 			filesToUpdate = append(filesToUpdate, path)
 		}
 
@@ -229,7 +234,7 @@ func main() {
 	// Add or update license headers.
 	failed := false
 	for _, file := range filesToUpdate {
-		if err := addLicenseHeader(file, license, *force); err != nil {
+		if err := addLicenseHeader(file, header, *force); err != nil {
 			fmt.Printf("Error adding license header to %s: %v\n", file, err)
 			failed = true
 		} else {
-- 
2.43.0


From 5afa13cd2e663dadcf5781b0bd2a420186009a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 47/60] fix: license tool adds the header once to a file with
 several names

---
 tools/license/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/license/main.go b/tools/license/main.go
index 77f2ea3..6ce981b 100644
--- a/tools/license/main.go
+++ b/tools/license/main.go
@@ -234,6 +234,9 @@ func main() {
 	// Add or update license headers.
 	failed := false
 	for _, file := range filesToUpdate {
+		if !*force && hasLicenseHeader(file, header) {
+			continue // got it by another name.
+		}
 		if err := addLicenseHeader(file, header, *force); err != nil {
 			fmt.Printf("Error adding license header to %s: %v\n", file, err)
 			failed = true
-- 
2.43.0


From ae500de3f70846b04321c2f824968833f148feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 48/60] fix: updating a license header leaves the rest of the
 file as it is

---
 tools/license/main.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/tools/license/main.go b/tools/license/main.go
index 6ce981b..1b92d87 100644
--- a/tools/license/main.go
+++ b/tools/license/main.go
@@ -151,15 +151,12 @@ func removeLicenseHeader(s, header string) string {
 	}
 
 	// Remove lines until a line without a comment prefix is found.
-	lines := strings.Split(s, "\n")
-	for i, line := range lines {
-		if !strings.HasPrefix(line, "//") {
-			lines = lines[i:]
-			break
-		}
+	for strings.HasPrefix(s, "//") {
+		_, s, _ = strings.Cut(s, "\n")
 	}
 
-	return strings.TrimSpace(strings.Join(lines, "\n"))
+	// Remove the blank line following the header.
+	return strings.TrimPrefix(s, "\n")
 }
 
 func main() {
-- 
2.43.0


From c6bf038343b566a6d20512fa6e0735ae34193017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:48 +0000
Subject: [PATCH 49/60] fix: refuse a configuration without provider or api
 section

---
 pkg/config/config.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 9af8c2d..07325c6 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -33,6 +33,8 @@ import (
 var (
 	errInvalidListenersConfig = errors.New("invalid listeners config")
 	errInvalidUpstreamsConfig = errors.New("invalid upstreams config")
+	errInvalidProviderConfig  = errors.New("invalid provider config")
+	errInvalidAPIConfig       = errors.New("invalid api config")
 )
 
 // TODO: set defaults
@@ -56,9 +58,22 @@ func (c *Configuration) Validate() error {
 	return errors.Join(
 		c.Listeners.Validate(),
 		c.Upstreams.Validate(),
+		c.validateSections(),
 	)
 }
 
+// validateSections checks that the mandatory sections are present.
+func (c *Configuration) validateSections() error {
+	var errs []error
+	if c.Provider == nil {
+		errs = append(errs, errInvalidProviderConfig)
+	}
+	if c.API == nil {
+		errs = append(errs, errInvalidAPIConfig)
+	}
+	return errors.Join(errs...)
+}
+
 // Global holds the global configuration.
 type Global struct {
 	ApplicationName string `yaml:"-"`
-- 
2.43.0


From 9a33cfede525b89fb920893bd7bcf7f87f37b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:11 +0000
Subject: [PATCH 50/60] fix: refuse empty listener and upstream entries

---
 pkg/config/config.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 07325c6..f976671 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -93,6 +93,11 @@ func (l Listeners) Validate() error {
 	if len(l) < 1 {
 		return errInvalidListenersConfig
 	}
+	for _, listener := range l {
+		if listener == nil {
+			return errInvalidListenersConfig
+		}
+	}
 	return nil
 }
 
@@ -111,6 +116,11 @@ func (u Upstreams) Validate() error {
 	if len(u) < 1 {
 		return errInvalidUpstreamsConfig
 	}
+	for _, upstream := range u {
+		if upstream == nil {
+			return errInvalidUpstreamsConfig
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From dc81e692ac29ffe1c01a84e4fac881061900bbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 51/60] fix: refuse upstreams which can not be reached or
 matched

---
 pkg/server/server_target.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/server/server_target.go b/pkg/server/server_target.go
index 71217a8..60bd864 100644
--- a/pkg/server/server_target.go
+++ b/pkg/server/server_target.go
@@ -23,6 +23,7 @@
 package server
 
 import (
+	"errors"
 	"fmt"
 	"net/http"
 	"net/url"
@@ -31,6 +32,8 @@ import (
 	"github.com/kacheio/kache/pkg/config"
 )
 
+var errInvalidTargetAddr = errors.New("target address must be an absolute http(s) URL")
+
 // Targets holds an array of targets.
 type Targets []*Target
 
@@ -72,8 +75,14 @@ func NewTarget(cfg *config.Upstream) (*Target, error) {
 		return nil, err
 	}
 
+	if (u.Scheme != "http" && u.Scheme != "https") || u.Hostname() == "" {
+		return nil, fmt.Errorf("%w: %q", errInvalidTargetAddr, cfg.Addr)
+	}
+
 	r := mux.NewRouter()
-	r.PathPrefix(cfg.Path) // TODO: add host?
+	if err := r.PathPrefix(cfg.Path).GetError(); err != nil { // TODO: add host?
+		return nil, err
+	}
 
 	t := &Target{
 		name:     cfg.Name,
-- 
2.43.0


From 4aec8880b44e8f3672313425c7d06ce053ee71a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 52/60] fix: validate the redis configuration when creating the
 provider

---
 pkg/provider/provider.go     | 3 +++
 pkg/provider/redis_client.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/pkg/provider/provider.go b/pkg/provider/provider.go
index ccaa6ec..f606b01 100644
--- a/pkg/provider/provider.go
+++ b/pkg/provider/provider.go
@@ -167,6 +167,9 @@ func _createCacheProvider(name string, config ProviderBackendConfig) (Provider,
 	case BackendInMemory:
 		return NewInMemoryCache(config.InMemory)
 	case BackendRedis:
+		if err := config.Redis.Validate(); err != nil {
+			return nil, err
+		}
 		client, err := NewRedisClient(name, config.Redis)
 		if err != nil {
 			return nil, errors.Join(err, errors.New("failed to create redis client"))
diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index 4c23bd8..9ad9c30 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -35,6 +35,7 @@ import (
 var (
 	ErrRedisConfigNoEndpoint    = errors.New("no redis endpoint configured")
 	ErrRedisMaxQueueConcurrency = errors.New("max job queue concurrency must be positive")
+	ErrRedisMaxQueueBufferSize  = errors.New("max job queue buffer size must not be negative")
 	ErrRedisMaxItemSize         = errors.New("max item size exceeded")
 	ErrRedisJobQueueFull        = errors.New("job queue is full")
 )
@@ -79,6 +80,9 @@ func (c *RedisClientConfig) Validate() error {
 	if c.MaxQueueConcurrency < 1 {
 		return ErrRedisMaxQueueConcurrency
 	}
+	if c.MaxQueueBufferSize < 0 {
+		return ErrRedisMaxQueueBufferSize
+	}
 	return nil
 }
 
-- 
2.43.0


From 8444fc45faa4532979e884dd824e6d54cfd06c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 53/60] fix: refuse a watch interval which is not positive

---
 pkg/config/loader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 444b1b6..c427aaf 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -27,6 +27,7 @@ import (
 	"context"
 	"crypto/md5"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"os"
 	"sync"
@@ -38,6 +39,8 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
+var errInvalidWatchInterval = errors.New("watch interval must be positive")
+
 // Loader loads a configuration from file.
 type Loader struct {
 	path string
@@ -55,6 +58,9 @@ type Loader struct {
 
 // NewFileLoader creates a new config Loader.
 func NewLoader(path string, watch bool, interval time.Duration) (*Loader, error) {
+	if watch && interval <= 0 {
+		return nil, errInvalidWatchInterval
+	}
 	ldr := &Loader{
 		path:          path,
 		watch:         watch,
-- 
2.43.0


From 34513273016e21263ba45e8d647cce7af5ffc791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 54/60] fix: relay the final status of a response that follows
 an informational one

---
 pkg/server/server.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index afd2207..2acafdd 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -129,12 +129,28 @@ func NewServer(
 func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	timeout := DefaultTimeout
 	http.TimeoutHandler(
-		s.proxy,
+		http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+			s.proxy.ServeHTTP(finalResponseWriter{w}, r)
+		}),
 		timeout,
 		fmt.Sprintf("Request timeout after %v", timeout),
 	).ServeHTTP(w, r)
 }
 
+// finalResponseWriter drops informational (1xx) responses of the upstream, as
+// the timeout handler would take the first of them for the final response.
+type finalResponseWriter struct {
+	http.ResponseWriter
+}
+
+// WriteHeader writes the header of the final response.
+func (w finalResponseWriter) WriteHeader(code int) {
+	if code >= 100 && code <= 199 {
+		return
+	}
+	w.ResponseWriter.WriteHeader(code)
+}
+
 // errorHandler is the proxy error handler.
 func errorHandler(w http.ResponseWriter, req *http.Request, err error) {
 	status := http.StatusInternalServerError
-- 
2.43.0


From 577141b8f9dfd95345cf6ccbfca06b3fb428f0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 55/60] fix: close the upstream connection if the upstream
 switches protocols

---
 pkg/server/middleware/httpcache.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index f9f913e..60969bc 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -25,6 +25,7 @@ package middleware
 import (
 	"context"
 	"crypto/tls"
+	"errors"
 	"net"
 	"net/http"
 	"time"
@@ -35,6 +36,8 @@ import (
 	"github.com/rs/zerolog/log"
 )
 
+var errSwitchingProtocols = errors.New("switching protocols is not supported")
+
 type metrics struct {
 	hits, misses prometheus.Counter
 }
@@ -214,7 +217,16 @@ func (t *Transport) send(req *http.Request) (*http.Response, error) {
 	if transport == nil {
 		transport = http.DefaultTransport
 	}
-	return transport.RoundTrip(req)
+	resp, err := transport.RoundTrip(req)
+	if err != nil {
+		return resp, err
+	}
+	if resp.StatusCode == http.StatusSwitchingProtocols {
+		// The body is the connection itself, which nobody takes over.
+		_ = resp.Body.Close()
+		return nil, errSwitchingProtocols
+	}
+	return resp, nil
 }
 
 // injectValidationHeaders injects validation headers.
-- 
2.43.0


From f117f07be0d47e72287b16a9b7e015321926274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:08 +0000
Subject: [PATCH 56/60] fix: do not forward protocol upgrades, which are not
 supported

---
 pkg/server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 2acafdd..434a688 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -217,6 +217,9 @@ func (s *Server) Director() func(req *http.Request) {
 		// RequestURI should not be set in a HTTP client request
 		req.RequestURI = ""
 
+		// The connection to the client is not handed over to another protocol.
+		req.Header.Del("Upgrade")
+
 		if _, ok := req.Header["User-Agent"]; !ok {
 			req.Header.Set("User-Agent", "kache")
 		}
-- 
2.43.0


From 6c91b1135400d97c34462e78be5946dcc87b1c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:13 +0000
Subject: [PATCH 57/60] fix: do not add the cache marker to requests sent
 upstream

---
 pkg/server/middleware/httpcache.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 60969bc..ae72dcd 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -116,9 +116,6 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 
 	if !cache.IsCacheableRequest(req) {
 		log.Debug().Interface("header", req.Header).Str("x-cache", "PASS").Msg("Ignoring uncachable request")
-		if t.Cache.MarkCachedResponses() {
-			req.Header.Set(t.Cache.XCacheHeader(), cache.MISS)
-		}
 		return t.send(req)
 	}
 
-- 
2.43.0


From afc4f26ae6028e9542cf5087c005d578704aaad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 58/60] fix: parse delta-seconds as specified

---
 pkg/cache/cache_control.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index a5107ba..4374890 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -25,6 +25,7 @@ package cache
 import (
 	"math"
 	"net/http"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -226,16 +227,28 @@ func splitDirective(s string) (dir string, arg string) {
 	return strings.ToLower(dir), arg
 }
 
+// maxDeltaSeconds is used for any larger number of seconds.
+// https://httpwg.org/specs/rfc7234.html#delta-seconds
+const maxDeltaSeconds = 1 << 31
+
 // parseDuration parses a directive argument and returns a valid duration in
 // seconds. Any invalid duration is ignored, returning a negative duration.
 // https://httpwg.org/specs/rfc7234.html#delta-seconds
 func parseDuration(s string) time.Duration {
-	s = strings.Trim(s, "\"'") // trim quotes
-	d, err := time.ParseDuration(s + "s")
-	if err != nil || d < 0 {
+	return parseSeconds(strings.Trim(s, "\"'")) // trim quotes
+}
+
+// parseSeconds parses a non-negative number of seconds, returning a negative
+// duration if it is invalid.
+func parseSeconds(s string) time.Duration {
+	if s == "" || strings.Trim(s, "0123456789") != "" {
 		return time.Duration(-1)
 	}
-	return d
+	n, err := strconv.ParseInt(s, 10, 64)
+	if err != nil || n > maxDeltaSeconds {
+		n = maxDeltaSeconds // the value is too large to be represented.
+	}
+	return time.Duration(n) * time.Second
 }
 
 // parseHttpTime parse a datetime http header value.
@@ -276,11 +289,7 @@ func CalculateAge(headers *http.Header, responseTime time.Time, now time.Time) t
 
 	// Set corrected age to the value Age header,
 	// as response delay (response_time - request_time) is assumed to be negligible.
-	age, err := time.ParseDuration(headers.Get(HeaderAge) + "s")
-	if err != nil {
-		age = time.Duration(0 * time.Second)
-	}
-	correctedAge := age
+	correctedAge := max(0, parseSeconds(headers.Get(HeaderAge)))
 	correctedInitialAge := max(int64(apparentAge), int64(correctedAge))
 
 	// Calculate current age by adding the amount of time (seconds)
-- 
2.43.0


From ba885bf0f9be57a27835276f967ed0e6dfcd66a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 59/60] fix: do not store or share header fields that concern
 the connection only

---
 pkg/cache/cache_control.go        | 10 ++++++++++
 pkg/cache/httpcache.go            |  1 +
 pkg/server/middleware/coalesce.go |  1 +
 3 files changed, 12 insertions(+)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 4374890..74d4193 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -183,6 +183,16 @@ func joinHeader(header http.Header, name string) string {
 	return strings.Join(header.Values(name), ", ")
 }
 
+// RemoveConnectionHeaders removes the header fields that concern only the connection
+// the message has been received on, as a copy of the message must not contain them.
+// https://httpwg.org/specs/rfc7230.html#header.connection
+func RemoveConnectionHeaders(header http.Header) {
+	for _, name := range strings.Split(joinHeader(header, "Connection"), ",") {
+		header.Del(strings.TrimSpace(name))
+	}
+	header.Del("Connection")
+}
+
 // splitDirectives splits the cache control header into its directives. A comma
 // that is part of a quoted-string does not separate directives.
 func splitDirectives(header string) []string {
diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index cb7430b..807b3bc 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -330,6 +330,7 @@ func (c *HttpCache) FetchResponse(ctx context.Context, lookup LookupRequest) *Lo
 // StoreResponse stores a response in the cache.
 func (c *HttpCache) StoreResponse(_ context.Context, lookup *LookupRequest,
 	response *http.Response, responseTime time.Time) {
+	RemoveConnectionHeaders(response.Header)
 	resp, err := httputil.DumpResponse(response, true)
 	if err != nil {
 		log.Error().Err(err).Send()
diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 3e42767..917dc10 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -174,6 +174,7 @@ func (coalescer *requestCoalescer) execute(req *http.Request, key string, inflig
 	if coalesced && err == nil {
 		if inflight.private = isPrivate(resp); !inflight.private {
 			// Copy the response before releasing it to waiter(s).
+			cache.RemoveConnectionHeaders(resp.Header)
 			body := resp.Body
 			if inflight.resp, err = httputil.DumpResponse(resp, true); err != nil {
 				_ = body.Close()
-- 
2.43.0


From 0ff038e1bf9ebc9ea40060791c0cd27070d845c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:54 +0000
Subject: [PATCH 60/60] fix: do not let requests with other cache directives
 share a stored response

---
 pkg/server/middleware/coalesce.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 917dc10..34b8862 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -85,6 +85,18 @@ func (coalescer *requestCoalescer) bypass(req *http.Request) bool {
 	return !cache.IsCacheableRequest(req)
 }
 
+// flightKey returns the key of the flight that may answer the given request. The cache directives
+// are part of it, as they decide whether a stored response may answer the request.
+func flightKey(req *http.Request) string {
+	key := req.URL.String()
+	for _, h := range []string{cache.HeaderCacheControl, cache.HeaderPragma} {
+		if v := req.Header.Values(h); len(v) > 0 {
+			key += "\n" + h + ": " + strings.Join(v, ", ")
+		}
+	}
+	return key
+}
+
 // isPrivate specifies if the response is meant for the requesting client only.
 func isPrivate(resp *http.Response) bool {
 	cacheControl := strings.Join(resp.Header.Values(cache.HeaderCacheControl), ", ")
@@ -102,7 +114,7 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 		return coalescer.next.RoundTrip(req)
 	}
 
-	key := req.URL.String()
+	key := flightKey(req)
 
 	for {
 		coalescer.Lock()
-- 
2.43.0

