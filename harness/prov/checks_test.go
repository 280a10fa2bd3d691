package prov

import (
	"testing"

	"verif/harness/core"
)

func TestVerif(t *testing.T) { core.Main(t) }

func init() {
	core.Register("C14", "map",
		"operation histories (set/get/delete/purge/flush/keys/size, elapsed time) over keys with pattern metacharacters; non-trivial = a value was read or expired and something was removed or replaced",
		150000, 5000000, GenMap, RunMap)
	core.Register("C15", "lru",
		"operation histories with item sizes around the limits, compared with a byte-bounded LRU model after every step, then the capacity is filled exactly; non-trivial = something was evicted or refused",
		150000, 5000000, GenLRU, RunLRU)
	core.Register("C15", "memory",
		"tens of thousands of short-lived items through a small store, heap compared before and after; non-trivial = every case",
		24, 400, GenChurn, RunChurn)
	core.Register("C16", "mixed",
		"2-4 threads issue drawn operations on 1-4 keys of the in-memory or layered store under the race detector; the history is checked for linearizability and the final state for agreement; non-trivial = operations of two threads overlapped",
		12000, 600000, GenConc, RunConc)
	core.Register("C17", "sequential",
		"histories through the layered store and behind its back on the remote tier, on a virtual clock; non-trivial = a read was filled from the remote tier and a local copy was stale, expired or removed",
		80000, 3000000, GenLayered, RunLayered)
	core.Register("C17", "concurrent",
		"reads and removals on 2-4 threads over a remote tier with drawn delays before and after each effect; linearizability and agreement of the tiers; non-trivial = operations overlapped",
		6000, 300000, GenRemoval, RunConc)
	core.Register("C17", "wired",
		"the layered store as created from a configuration over an in-process redis server, two instances; non-trivial = layered",
		800, 20000, GenWired, RunWired)
	core.Register("C18", "settled",
		"histories on two instances sharing an in-process redis server, each store settled before the next operation, time advanced on the server; non-trivial = a value was read and something expired, was removed or was too large",
		10000, 400000, GenRedis, RunRedis)
	core.Register("C18", "queue",
		"more items than the queue takes while redis does not answer; non-trivial = items had to be dropped",
		1200, 40000, GenQueue, RunQueue)
}
