package mw

import (
	"testing"

	"pgregory.net/rapid"

	"verif/harness/core"
)

func TestVerif(t *testing.T) { core.Main(t) }

func init() {
	core.Register("C12", "schedule",
		"schedules of overlapping requests, origin answers and disconnects, executed deterministically; non-trivial = a response or error was shared with a waiting request",
		100000, 4000000, func(rt *rapid.T) Sched { return genSched(rt, false) },
		func(t *testing.T, s Sched) core.Result { return runSched(t, s, false) })
	core.Register("C12", "threads",
		"identical requests from 2-8 clients on real threads under the race detector, every client overwriting what it received; non-trivial = requests were coalesced",
		4000, 200000, GenThreads, RunThreads)
	core.Register("C13", "schedule",
		"schedules of overlapping requests that differ in credentials, conditions, methods and excluded headers, with private answers and disconnects; non-trivial = a bypassing request overlapped a flight, a private answer had waiters, or a client of a shared flight left",
		80000, 3000000, func(rt *rapid.T) Sched { return genSched(rt, true) },
		func(t *testing.T, s Sched) core.Result { return runSched(t, s, true) })
}
