package misc

import (
	"testing"

	"verif/harness/core"
)

func TestVerif(t *testing.T) { core.Main(t) }

func init() {
	core.Register("C29", "tree",
		"drawn source trees (names, excluded directories, links, generated files, contents with and without headers), license texts and sequences of verifications, additions, forced updates and edits; non-trivial = a header was added or found lacking",
		12000, 600000, GenTree, RunTree)
	core.Register("C30", "messages",
		"sequences of drawn logger configurations with drawn messages of all levels, several threads, files and rotation; non-trivial = some messages were written and some dropped",
		30000, 3000000, GenLogs, RunLogs)
	core.Register("C30", "process",
		"instances in their own process with drawn logging sections that start, report an error and stop; non-trivial = all",
		120, 4000, GenLogProc, RunLogProc)
}
