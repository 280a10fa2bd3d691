package core

import (
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/alicebob/miniredis/v2/server"
)

// RedisGlob matches as the redis server does: * ? [..] and backslash.
func RedisGlob(p, s string) bool {
	for p != "" {
		switch p[0] {
		case '*':
			for len(p) > 1 && p[1] == '*' {
				p = p[1:]
			}
			if len(p) == 1 {
				return true
			}
			for i := 0; i <= len(s); i++ {
				if RedisGlob(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if s == "" {
				return false
			}
			s = s[1:]
		case '[':
			if s == "" {
				return false
			}
			p = p[1:]
			not := p != "" && p[0] == '^'
			if not {
				p = p[1:]
			}
			hit := false
			for {
				if p == "" {
					// unterminated: as if closed here
					p = "]"
					break
				}
				if p[0] == ']' {
					break
				}
				if p[0] == '\\' && len(p) >= 2 {
					p = p[1:]
					hit = hit || p[0] == s[0]
				} else if len(p) >= 3 && p[1] == '-' {
					lo, hi := p[0], p[2]
					if lo > hi {
						lo, hi = hi, lo
					}
					p = p[2:]
					hit = hit || lo <= s[0] && s[0] <= hi
				} else {
					hit = hit || p[0] == s[0]
				}
				p = p[1:]
			}
			if hit == not {
				return false
			}
			s = s[1:]
		default:
			if p[0] == '\\' && len(p) >= 2 {
				p = p[1:]
			}
			if s == "" || p[0] != s[0] {
				return false
			}
			s = s[1:]
		}
		p = p[1:]
	}
	return s == ""
}

// PagedScan returns a hook that makes the stand-in answer SCAN on database db as a redis server does: page by
// page, in no particular order, with pages that may be empty. (Its own SCAN returns everything at once.)
func PagedScan(mr *miniredis.Miniredis, db int) server.Hook {
	return func(c *server.Peer, cmd string, args ...string) bool {
		if cmd != "SCAN" || len(args) == 0 {
			return false
		}
		cur, err := strconv.ParseUint(args[0], 10, 64)
		if err != nil {
			c.WriteError("ERR invalid cursor")
			return true
		}
		match, count := "*", 10
		for i := 1; i < len(args); i += 2 {
			if i+1 == len(args) {
				c.WriteError("ERR syntax error")
				return true
			}
			switch strings.ToUpper(args[i]) {
			case "MATCH":
				match = args[i+1]
			case "COUNT":
				n, err := strconv.Atoi(args[i+1])
				if err != nil || n < 1 {
					c.WriteError("ERR syntax error")
					return true
				}
				count = n
			default:
				return false
			}
		}
		count = min(count, 64) // only a hint: a page may be shorter
		type ent struct {
			h uint64
			k string
		}
		var es []ent
		for _, k := range mr.DB(db).Keys() {
			f := fnv.New32a()
			_, _ = f.Write([]byte(k))
			es = append(es, ent{uint64(f.Sum32()) + 1, k})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].h < es[j].h })
		var out []string
		next := uint64(0)
		n := 0
		for i, e := range es {
			if e.h < cur {
				continue
			}
			if n >= count && e.h != es[i-1].h {
				next = e.h
				break
			}
			n++
			if RedisGlob(match, e.k) {
				out = append(out, e.k)
			}
		}
		c.WriteLen(2)
		c.WriteBulk(strconv.FormatUint(next, 10))
		c.WriteLen(len(out))
		for _, k := range out {
			c.WriteBulk(k)
		}
		return true
	}
}

var redisNo atomic.Uint32

// StartRedis starts a stand-in on a loopback address of its own: thousands of them come and go, and the
// connections they leave behind must not use up the ports of 127.0.0.1.
func StartRedis() *miniredis.Miniredis {
	mr := miniredis.NewMiniRedis()
	n := redisNo.Add(1) + uint32(os.Getpid())*7919
	var err error
	for i := 0; i < 100; i++ {
		if err = mr.StartAddr(fmt.Sprintf("127.%d.%d.%d:0", 64+n>>16%64, n>>8%256, 1+n%250)); err == nil {
			return mr
		}
		n += 7919
		time.Sleep(time.Millisecond)
	}
	panic("harness: no redis stand-in: " + err.Error())
}
