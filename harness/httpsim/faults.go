package httpsim

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/gob"

	"github.com/kacheio/kache/pkg/provider"
	"pgregory.net/rapid"
)

// faultyStore is a store whose reads go wrong on demand.
type faultyStore struct {
	provider.Provider
	fault *Fault
	gets  int
}

func storeFor(sc Scenario) provider.Provider {
	for _, s := range sc.Steps {
		if s.Fault != nil {
			p, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{DefaultTTL: "120s"})
			if err != nil {
				panic(err)
			}
			return &faultyStore{Provider: p}
		}
	}
	return nil
}

// Get returns what the fault says.
func (f *faultyStore) Get(ctx context.Context, key string) []byte {
	f.gets++
	v := f.Provider.Get(ctx, key)
	if f.fault == nil || v == nil {
		return v
	}
	return f.fault.apply(v)
}

func (f *Fault) apply(v []byte) []byte {
	switch f.Kind {
	case "none":
		return nil
	case "empty":
		return []byte{}
	case "truncate":
		n := f.N % len(v)
		return append([]byte{}, v[:n]...)
	case "junk":
		b, _ := base64.StdEncoding.DecodeString(f.Data)
		return b
	case "foreign-gob":
		var w bytes.Buffer
		_ = gob.NewEncoder(&w).Encode(struct{ Name, Value string }{"a", "b"})
		return w.Bytes()
	case "foreign-body":
		// a well-formed entry whose content is not an HTTP response
		var w bytes.Buffer
		_ = gob.NewEncoder(&w).Encode(struct {
			Body      []byte
			Timestamp int64
		}{[]byte("not an http response"), 946684800})
		return w.Bytes()
	case "foreign-map":
		var w bytes.Buffer
		_ = gob.NewEncoder(&w).Encode(map[string]int{"a": 1})
		return w.Bytes()
	}
	return nil
}

func genFault(rt *rapid.T) *Fault {
	f := &Fault{Kind: pick(rt, "faultkind", "none", "empty", "truncate", "truncate", "truncate", "junk", "junk", "foreign-gob", "foreign-body", "foreign-map")}
	switch f.Kind {
	case "truncate":
		f.N = rapid.IntRange(0, 5000).Draw(rt, "keep")
	case "junk":
		var b []byte
		switch pick(rt, "junkkind", "bytes", "text", "gobish") {
		case "bytes":
			b = rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(rt, "junk")
		case "text":
			b = []byte(pick(rt, "junktext", "null", "OK", "{}", "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc", "\x00", "0", "PONG", "WRONGTYPE Operation against a key"))
		case "gobish":
			// plausible length prefixes followed by noise
			b = append([]byte{byte(rapid.IntRange(0, 255).Draw(rt, "len"))}, rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(rt, "noise")...)
		}
		f.Data = base64.StdEncoding.EncodeToString(b)
	}
	return f
}
