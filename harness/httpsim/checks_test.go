package httpsim

import (
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/core"
)

func TestVerif(t *testing.T) { core.Main(t) }

// broad adds a little of everything, as a fault may need an unrelated feature to show.
func (p Profile) broad() Profile {
	for _, f := range []struct {
		v *int
		n int
	}{{&p.XHeader, 10}, {&p.Head, 3}, {&p.ReqCC, 4}, {&p.Pragma, 2}, {&p.Bypass, 3}, {&p.Validators, 5}, {&p.NM, 5}, {&p.Errors, 1}, {&p.Cuts, 1},
		{&p.Messy, 5}, {&p.DateOdd, 2}, {&p.AgeHdr, 2}, {&p.Rules, 5}, {&p.CfgUpdate, 2}, {&p.Unsolicited, 1}, {&p.BigSleep, 1}} {
		*f.v = max(*f.v, f.n)
	}
	return p
}

func reg(id, part, rule string, quick, thorough int, p Profile, nt func(*Sim) bool) {
	p = p.broad()
	core.Register(id, part, rule, quick, thorough,
		func(rt *rapid.T) Scenario { return GenScenario(rt, p) },
		func(t *testing.T, s Scenario) core.Result { return RunWith(t, s, nt) })
}

func has(l ...string) func(*Sim) bool {
	return func(s *Sim) bool {
		for _, x := range l {
			if s.L.Has(x) {
				return true
			}
		}
		return false
	}
}

func init() {
	reg("C01", "freshness",
		"histories of GET/HEAD exchanges with generated lifetimes, dates, Age and request directives, sleeps aimed at lifetime edges; non-trivial = at least one hit or validation of a stored response decided",
		60000, 3000000,
		Profile{MinSteps: 2, MaxSteps: 8, Strict: 100, Resources: 1, Head: 5, ReqCC: 55, Pragma: 10, Bypass: 0, RespCC: 85, Uncacheable: 4,
			Validators: 30, NM: 30, Errors: 3, Messy: 0, DateOdd: 35, AgeHdr: 25, BigSleep: 8},
		func(s *Sim) bool { return s.Hits+s.Validations > 0 })
	reg("C02", "storage",
		"histories mixing storable and non-storable exchanges on few resources; non-trivial = a response was refused or removed, or a stored one answered a later request",
		60000, 3000000,
		Profile{MinSteps: 2, MaxSteps: 8, Strict: 97, Resources: 2, Head: 15, ReqCC: 25, Pragma: 3, Bypass: 5, RespCC: 75, Uncacheable: 50,
			Validators: 25, NM: 30, Errors: 4, Messy: 4, DateOdd: 20, AgeHdr: 5, BigSleep: 2},
		func(s *Sim) bool { return s.Refused > 0 && s.Stores > 0 || s.Hits > 0 })
	reg("C03", "bypass",
		"histories interleaving bypassing requests (credentials, conditional, range, other methods, excluded path/header) with cacheable ones; non-trivial = a bypass while the resource is stored, or a lookup after a bypass",
		60000, 3000000,
		Profile{MinSteps: 3, MaxSteps: 10, Strict: 80, XHeader: 40, Resources: 2, Head: 10, ReqCC: 8, Pragma: 2, Bypass: 45, RespCC: 90, Uncacheable: 8,
			Validators: 40, NM: 40, Errors: 4, Messy: 0, DateOdd: 5, AgeHdr: 3, Rules: 25, BigSleep: 1},
		has("bypass-with-entry"))
	reg("C04", "revalidation",
		"histories with validators, 304 answers with generated header sets, replacements and elapsed times; non-trivial = at least one validation",
		60000, 3000000,
		Profile{MinSteps: 3, MaxSteps: 10, Strict: 100, XHeader: 40, Resources: 1, Head: 8, ReqCC: 30, Pragma: 8, Bypass: 2, RespCC: 90, Uncacheable: 8,
			Validators: 65, NM: 70, Errors: 4, Messy: 0, DateOdd: 10, AgeHdr: 10, Unsolicited: 4, BigSleep: 3},
		has("validate", "unsolicited-304"))
	reg("C05", "fidelity",
		"histories with arbitrary header multisets, body bytes, sizes, framings and truncations; non-trivial = a stored response was delivered (hit or after 304) or a broken-off body was seen",
		40000, 2000000,
		Profile{MinSteps: 2, MaxSteps: 6, Strict: 75, XHeader: 30, Resources: 2, Head: 12, ReqCC: 5, Bypass: 6, RespCC: 95, Uncacheable: 6,
			Validators: 40, NM: 45, Errors: 3, Cuts: 10, Messy: 70, DateOdd: 5, AgeHdr: 5, BigSleep: 1},
		has("hit", "304", "cut-not-stored"))
	reg("C07", "age",
		"histories of repeated hits over generated Date/Age fields and elapsed times; non-trivial = a hit with Age above zero",
		40000, 2000000,
		Profile{MinSteps: 3, MaxSteps: 10, Strict: 60, Resources: 1, Head: 8, ReqCC: 12, RespCC: 95, Uncacheable: 2,
			Validators: 30, NM: 35, Errors: 1, Messy: 0, DateOdd: 55, AgeHdr: 45, BigSleep: 15},
		has("age>0"))
	reg("C09", "ttl",
		"strict and non-strict histories under generated TTL tables and elapsed times; non-trivial = an entry expired by TTL or a non-strict hit",
		60000, 3000000,
		Profile{MinSteps: 3, MaxSteps: 10, Strict: 30, Resources: 3, Head: 8, ReqCC: 25, Pragma: 4, Bypass: 3, RespCC: 60, Uncacheable: 40,
			Validators: 20, NM: 25, Errors: 3, Cuts: 2, Messy: 0, DateOdd: 15, AgeHdr: 5, Rules: 70, BigSleep: 5, CfgUpdate: 10},
		has("ttl-expired", "lookup-nonstrict"))
	reg("C10", "rules",
		"histories under generated exclusion and default Cache-Control rules with configuration updates between requests; non-trivial = a rule decided (exclusion, default Cache-Control) or the configuration changed with entries stored",
		60000, 3000000,
		Profile{MinSteps: 3, MaxSteps: 10, Strict: 70, XHeader: 30, Resources: 3, Head: 6, ReqCC: 6, Bypass: 2, RespCC: 55, Uncacheable: 15,
			Validators: 25, NM: 30, Errors: 2, Messy: 5, DateOdd: 8, AgeHdr: 3, Rules: 75, CfgUpdate: 20, BigSleep: 2},
		has("bypass-excluded-path", "bypass-excluded-header", "store-excluded-content", "default-cc", "config-update"))
	reg("C11", "marker",
		"histories under generated marker settings (also changing), comparing marker and exported counters with what was served; non-trivial = a marked hit or validated response",
		40000, 2000000,
		Profile{MinSteps: 3, MaxSteps: 10, Strict: 75, XHeader: 65, Resources: 2, Head: 10, ReqCC: 20, Pragma: 4, Bypass: 10, RespCC: 85, Uncacheable: 15,
			Validators: 40, NM: 50, Errors: 4, Messy: 5, DateOdd: 10, AgeHdr: 5, Rules: 10, CfgUpdate: 15, BigSleep: 2},
		has("hit", "304"))
}

func init() {
	core.Register("C06", "urls",
		"histories over families of related URLs (near misses and respellings; encoded slashes, malformed queries, Unicode), hosts and schemes; non-trivial = a stored response answered a differently or equally spelled request",
		60000, 3000000, GenURLScenario,
		func(t *testing.T, s Scenario) core.Result {
			return RunWith(t, s, func(s *Sim) bool { return s.Hits > 0 && s.Stores > 1 })
		})
	core.Register("C08", "spelling",
		"a history and the same history with every Cache-Control field respelled equivalently, both executed and compared; non-trivial = a stored response was reused or validated and the spellings differ",
		40000, 2000000, GenPair, RunPair)
	core.Register("C08", "garbage",
		"histories with arbitrary Cache-Control, Pragma, Age, Expires, Date and ETag values; non-trivial = more than one exchange on the resource",
		25000, 2000000, GenGarbage, RunGarbage)
	reg("C19", "damaged",
		"histories in which reads of the store return nothing, truncated, junk or foreign values in some steps; non-trivial = a stored response was unreadable",
		40000, 2000000,
		Profile{MinSteps: 3, MaxSteps: 9, Strict: 60, XHeader: 20, Resources: 2, Head: 8, ReqCC: 10, Bypass: 5, RespCC: 90, Uncacheable: 10,
			Validators: 40, NM: 40, Errors: 4, Cuts: 3, Messy: 20, DateOdd: 5, AgeHdr: 5, Unsolicited: 2, Faults: 35},
		func(s *Sim) bool {
			for _, l := range s.L.List() {
				if strings.HasPrefix(l, "fault-") {
					return true
				}
			}
			return false
		})
	core.Register("C19", "redis",
		"histories of requests, management calls, outages, error answers and corrupted values on a redis backend, plain or layered; non-trivial = a request met a broken backend or a corrupted value",
		1200, 40000, GenOutage, RunOutage)
}

func init() {
	core.Register("C01", "overlap",
		"a stored response and a group of overlapping requests with directives of their own, over a store that takes its time; non-trivial = requests overlapped of which some may and some may not use the stored response",
		40000, 2000000, GenGroup, RunGroup)
}
