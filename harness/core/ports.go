package core

import (
	"bufio"
	"fmt"
	"os"
	"strings"
	"time"
)

var sinceBreath = 63

// breathe waits while connections that were closed recently hold most of the ephemeral ports of 127.0.0.1: a bind or
// connect that fails for that reason says nothing about the code under test.
func breathe() {
	if sinceBreath++; sinceBreath < 64 {
		return
	}
	sinceBreath = 0
	if waiting() < 20000 {
		return
	}
	limit := 22000
	for end := time.Now().Add(65 * time.Second); time.Now().Before(end) && homePorts() > limit; time.Sleep(2 * time.Second) {
		limit = 16000
	}
}

// waiting is the number of connections in TIME-WAIT.
func waiting() (n int) {
	b, err := os.ReadFile("/proc/net/sockstat")
	if err != nil {
		return 0
	}
	if i := strings.Index(string(b), " tw "); i >= 0 {
		_, _ = fmt.Sscanf(string(b[i:]), " tw %d", &n)
	}
	return n
}

// homePorts is the number of ports of 127.0.0.1 that they hold.
func homePorts() int {
	ports := map[string]bool{}
	f, err := os.Open("/proc/net/tcp")
	if err != nil {
		return 0
	}
	defer func() { _ = f.Close() }()
	for sc := bufio.NewScanner(f); sc.Scan(); {
		if w := strings.Fields(sc.Text()); len(w) > 3 && w[3] == "06" && strings.HasPrefix(w[1], "0100007F:") {
			ports[w[1]] = true
		}
	}
	return len(ports)
}
