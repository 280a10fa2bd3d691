package srv

import (
	"testing"

	"verif/harness/core"
)

func TestVerif(t *testing.T) { core.Main(t) }

func init() {
	core.Register("C20", "history",
		"histories of proxied requests and management operations with drawn key patterns, prefixes, methods, update documents and store failures; non-trivial = a purge removed some entries and kept others, or an update was applied or rejected",
		8000, 300000, GenMgmt, RunMgmt)
	core.Register("C20", "parallel",
		"2-6 clients and operators with drawn requests, purges, listings and updates, each on resources of its own, at the same time (race detector on); non-trivial = there were hits and removals",
		3000, 100000, GenPar, RunPar)
	core.Register("C21", "list",
		"drawn access lists (addresses, networks, IPv4, IPv6, malformed ones) and requests to every endpoint with drawn peers and forwarding headers near the listed ones; non-trivial = a listed instance granted or blocked a request, or a malformed list was refused",
		120000, 4000000, GenACL, RunACL)
	core.Register("C22", "route",
		"drawn upstream lists (prefixes, base paths, TLS) and raw requests with drawn methods, escaped targets, header lines and bodies, and drawn responses; non-trivial = a request was routed and the case has a base path, an escape, a body, a later upstream or an unmatched request",
		40000, 2000000, GenRoute, RunRoute)
	core.Register("C23", "failure",
		"drawn upstream failures (refused, closed, reset or cut anywhere in head, body or chunks, malformed) for 1-5 concurrent clients between stored responses; non-trivial = the failure was met",
		12000, 600000, GenFail, RunFail)
	core.Register("C23", "stall",
		"sets of requests whose upstream stalls before, in or after the head; non-trivial = all",
		8, 64, GenStall, RunStall)
	core.Register("C25", "reload",
		"histories of an instance in its own process (race detector on): file changes, broken and missing files, reloads by signal, management request and file watch, alone and together, while requests are served; non-trivial = a reload was applied or rejected",
		500, 20000, GenReload, RunReload)
	core.Register("C25", "apply",
		"drawn configurations applied by several threads while the rules are consulted; non-trivial = all",
		2000, 100000, GenApply, RunApply)
	core.Register("C28", "stop",
		"instances in their own process with 1-3 listeners and 1-8 clients in drawn states (request at the upstream, response begun, body or head not yet sent, idle, about to be sent, never answered) stopped by 1-5 signals; the upstreams answer when connections are refused; non-trivial = a request in progress was completed",
		500, 20000, GenDown, RunDown)
	core.Register("C31", "start",
		"drawn configurations, half of them with one of 22 kinds of faults; sound ones must start, route, cache and answer management requests on all listeners, faulty ones must be refused; non-trivial = faulty, or a cached response was served",
		6000, 300000, GenBoot, RunBoot)
	core.Register("C31", "odd",
		"drawn configurations with arbitrary structural and byte edits; a start must not crash; non-trivial = the document passed loading and validation",
		12000, 600000, GenOdd, RunOdd)
	core.Register("C31", "command",
		"starts of the executable with drawn flags, files and configurations; non-trivial = all",
		160, 6000, GenCommand, RunCommand)
	core.Register("C32", "history",
		"histories of 1-16 groups of up to 6 concurrent requests with drawn upstream behaviour (stored, revalidated, private, large, chunked, broken off, never answered) and clients that stay, leave at a drawn time or byte, or send half a request; non-trivial = a client left, an upstream failed or a response was revalidated",
		1500, 100000, GenLeak, RunLeak)
	core.Register("C35", "account",
		"histories of an instance in its own process with 1-3 listeners: concurrent and single requests of drawn kinds (plain, HEAD, bypassing, conditional, uncacheable, failing, revalidated), purges, flushes, reloads and updates; non-trivial = there were hits and misses",
		1600, 60000, GenAcct, RunAcct)
	core.Register("C34", "wire",
		"1-3 resources of drawn status, fields, length, framing, segmentation and coding, requested by 1-4 groups of 1-8 concurrent clients (plain, HEAD, HTTP/1.0, kept-alive, pipelined, slow, leaving, Range, conditional) while the origin holds its answer back; non-trivial = requests joined one in flight, or a response was stored",
		3000, 150000, GenWire, RunWire)
}
