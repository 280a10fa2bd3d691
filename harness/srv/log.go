package srv

import (
	"io"
	"log"
)

var nullLog = log.New(io.Discard, "", 0)
