package clus

import (
	"testing"

	"verif/harness/core"
)

func TestVerif(t *testing.T) { core.Main(t) }

func init() {
	core.Register("C26", "queue",
		"drawn queues, messages and destinations (answers, refusals, broken or hanging connections) on a virtual clock with in-memory connections; non-trivial = a message was sent again",
		20000, 1000000, GenQueue, RunQueue)
	core.Register("C26", "race",
		"the same under the race detector; non-trivial = a message was sent again",
		1500, 60000, GenQueue, RunQueue)
	core.Register("C27", "peers",
		"drawn endpoint sets (subsets, named ports, ready and unready addresses with and without references, IPv4 and IPv6, dead ones), prefixes, access lists, clients, keys and update documents; a second real instance processes what peers receive; non-trivial = a message was forwarded",
		6000, 300000, GenCluster, RunCluster)
	core.Register("C33", "shared",
		"histories of 2-3 instances with one Redis store, layered or not, in a cluster: requests, changes at the origin, purges (also while the resource is read), invalidations, flushes, configuration updates, restarts and crashes at drawn instances; non-trivial = an instance served what another stored, or a purge removed something",
		2000, 80000, GenShared, RunShared)
}
