package conf

import (
	"testing"

	"verif/harness/core"
)

func TestVerif(t *testing.T) { core.Main(t) }

func init() {
	core.Register("C24", "history",
		"drawn documents (all sections and fields in drawn spellings, and damaged ones: unknown, duplicate or mistyped fields, malformed text) and drawn histories of writes, removals and reloads; non-trivial = a load was rejected or picked up a change",
		40000, 2000000, GenHistory, RunHistory)
	core.Register("C24", "watch",
		"watched files on a virtual clock with drawn edits between the ticks, direct reloads and slow consumers; non-trivial = the watcher met a broken or changed file",
		20000, 1000000, GenWatch, RunHistory)
	core.Register("C24", "threads",
		"concurrent reloads and readers on real threads under the race detector; non-trivial = a change was loaded",
		1500, 60000, GenThreads, RunThreads)
}
