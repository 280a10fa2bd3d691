package httpsim

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/core"
)

// Pair is a history and the same history with Cache-Control fields spelled differently.
type Pair struct {
	A Scenario `json:"a"`
	B Scenario `json:"b"`
}

// respellCC returns an equivalent spelling of a plain single-line Cache-Control value.
func respellCC(rt *rapid.T, v string, response bool) []H {
	var ds []string
	for _, d := range strings.Split(v, ", ") {
		ds = append(ds, d)
	}
	have := map[string]bool{}
	for i, d := range ds {
		n, a, ok := strings.Cut(d, "=")
		have[n] = true
		n = pick(rt, "case", n, n, strings.ToUpper(n), mixCase(n), strings.ToUpper(n[:1])+n[1:])
		if ok && pct(rt, 30, "quote") && !strings.Contains(a, `"`) {
			a = `"` + a + `"`
		}
		if ok && pct(rt, 10, "zeros") && !strings.Contains(a, `"`) {
			a = "0" + a
		}
		if ok {
			d = n + "=" + a
		} else {
			d = n
		}
		ds[i] = d
	}
	if pct(rt, 30, "ext") {
		ds = append(ds, unknownDirective(rt))
	}
	if pct(rt, 20, "bad") {
		n := pick(rt, "badn", "max-age", "min-fresh", "max-stale", "s-maxage")
		known := n == "max-age" || (response == (n == "s-maxage"))
		if !have[n] && known {
			ds = append(ds, n+"="+pick(rt, "badv", "abc", "-1", "-60", "x1", "1x", "--5", "1-", `"abc"`, `"-3"`, "1h1", "1m", "2.5", "+30", "1e2", "60s", `"1m30"`, `"2.5"`))
		}
	}
	ds = rapid.Permutation(ds).Draw(rt, "perm")
	return joinCC(rt, pick(rt, "key", "Cache-Control", "cache-control", "CACHE-CONTROL"), ds, 45)
}

func respellHdr(rt *rapid.T, hs []H, response bool, n *int) []H {
	var out []H
	for _, h := range hs {
		if strings.EqualFold(h.K, "Cache-Control") && h.V != "" && !strings.Contains(h.V, `"`) {
			*n++
			out = append(out, respellCC(rt, h.V, response)...)
			continue
		}
		out = append(out, h)
	}
	return out
}

// GenPair draws a history with plainly spelled fields and an equivalent one.
func GenPair(rt *rapid.T) Pair {
	p := Profile{MinSteps: 2, MaxSteps: 6, Strict: 100, Resources: 1, Head: 5, ReqCC: 50, RespCC: 92, Uncacheable: 20,
		Validators: 30, NM: 30, Errors: 1, DateOdd: 10, AgeHdr: 10, BigSleep: 2}
	a := GenScenario(rt, p)
	b := Scenario{Cfg: a.Cfg, Epi: a.Epi, EpiAge: a.EpiAge}
	n := 0
	for _, s := range a.Steps {
		t := s
		if s.Req != nil {
			r := *s.Req
			r.Hdr = respellHdr(rt, r.Hdr, false, &n)
			t.Req = &r
		}
		if s.Resp != nil {
			r := *s.Resp
			r.Hdr = respellHdr(rt, r.Hdr, true, &n)
			t.Resp = &r
		}
		if s.NM != nil {
			r := *s.NM
			r.Hdr = respellHdr(rt, r.Hdr, true, &n)
			t.NM = &r
		}
		b.Steps = append(b.Steps, t)
	}
	return Pair{a, b}
}

func runTrace(t *testing.T, sc Scenario) (tr []Observed, v string, s *Sim) {
	dl := core.Bubble(t, func() {
		v = core.Guard(func() {
			s = NewSim(sc.Cfg, storeFor(sc))
			v = s.play(sc)
			tr = s.Trace
		})
	})
	if dl != "" {
		v = "deadlock: " + dl
	}
	return
}

// RunPair executes both histories on the real code and compares what was observed.
func RunPair(t *testing.T, p Pair) core.Result {
	ta, va, sa := runTrace(t, p.A)
	tb, vb, sb := runTrace(t, p.B)
	res := core.Result{}
	_ = va // a failure of the plain spelling itself is another property's business
	for i := range min(len(ta), len(tb)) {
		x, y := ta[i], tb[i]
		for _, o := range []*Observed{&x, &y} {
			for _, k := range []string{"Cache-Control"} {
				o.Header.Del(k)
			}
		}
		if !reflect.DeepEqual(x, y) {
			res.Violation = fmt.Sprintf("step %d differs between equivalent spellings:\n%+v\n%+v", i, x, y)
			return res
		}
	}
	if sa != nil {
		res.NonTrivial = sa.Hits+sa.Validations > 0 && !reflect.DeepEqual(p.A, p.B)
		res.Labels = sa.L.List()
	}
	if va == "" && vb != "" {
		res.Violation = "equivalent spelling: " + vb
		return res
	}
	if len(ta) != len(tb) {
		res.Violation = fmt.Sprintf("%d steps against %d", len(ta), len(tb))
	}
	_ = sb
	return res
}

// GenGarbage draws histories with arbitrary Cache-Control values.
func GenGarbage(rt *rapid.T) Scenario {
	sc := Scenario{Cfg: Cfg{Strict: true, TTL: "1h"}}
	piece := rapid.SampledFrom([]string{"max-age", "s-maxage", "no-cache", "no-store", "private", "max-stale", "min-fresh", "must-revalidate", "=", "=", ",", ", ", `"`, `\`, `\"`, " ", "\t", "0", "5", "60",
		"-1", "99999999999999999999", "1e9", "0x10", ";", "'", "é", "\x80", "ns", "h", "1h", ".5", "+3", "==", ",,,", "a", "NaN", "Inf", "_"})
	val := func(n string) string {
		if pct(rt, 30, n+"free") {
			return strings.Trim(rapid.StringMatching("[ -~\\t]{0,40}").Draw(rt, n), " \t")
		}
		var b strings.Builder
		for i, k := 0, rapid.IntRange(0, 12).Draw(rt, n+"n"); i < k; i++ {
			b.WriteString(piece.Draw(rt, n))
		}
		v := strings.Trim(b.String(), " \t")
		if n == "rs" && pct(rt, 60, n+"valid") {
			v = pick(rt, n+"pre", "max-age=60,", "s-maxage=7 ,", "max-age=60, no-cache,") + v
		}
		if n == "rq" && pct(rt, 30, n+"valid") {
			v = pick(rt, n+"pre", "max-age=60,", "max-stale ,", "min-fresh=5,") + v
		}
		return strings.Trim(v, " \t")
	}
	for i, n := 0, rapid.IntRange(2, 5).Draw(rt, "steps"); i < n; i++ {
		st := Step{Sleep: pick[int64](rt, "sleep", 0, 1000, 5000, 60000),
			Req:  &Req{Method: "GET", Scheme: "http", Host: "h1.test", Target: "/g"},
			Resp: &Resp{Status: 200, Body: fmt.Sprintf("body-%d", i)}}
		for j, k := 0, rapid.IntRange(0, 2).Draw(rt, "nrq"); j < k; j++ {
			st.Req.Hdr = append(st.Req.Hdr, H{K: pick(rt, "rqk", "Cache-Control", "Cache-Control", "Pragma"), V: val("rq")})
		}
		for j, k := 0, rapid.IntRange(0, 2).Draw(rt, "nrs"); j < k; j++ {
			st.Resp.Hdr = append(st.Resp.Hdr, H{K: "Cache-Control", V: val("rs")})
		}
		if pct(rt, 30, "age") {
			st.Resp.Hdr = append(st.Resp.Hdr, H{K: "Age", V: val("age")})
		}
		if pct(rt, 30, "exp") {
			st.Resp.Hdr = append(st.Resp.Hdr, H{K: "Expires", V: val("exp")})
		}
		if pct(rt, 50, "date") {
			st.Resp.Hdr = append(st.Resp.Hdr, H{K: "Date", V: val("date")})
		}
		if pct(rt, 30, "etag") {
			st.Resp.Hdr = append(st.Resp.Hdr, H{K: "Etag", V: val("etag")})
		}
		if pct(rt, 30, "nm") {
			st.NM = &Resp{Status: 304, Hdr: []H{{K: "Cache-Control", V: val("nm")}, {K: "Etag", V: val("nmetag")}}}
		}
		sc.Steps = append(sc.Steps, st)
	}
	return sc
}

// RunGarbage checks only what holds for any field value: no crash, an answer, and a body that the
// origin sent for the resource.
func RunGarbage(t *testing.T, sc Scenario) core.Result {
	var v string
	l := &core.Labels{}
	hits := 0
	dl := core.Bubble(t, func() {
		g := core.Guard(func() {
			s := NewSim(sc.Cfg, nil)
			bodies := map[string]bool{}
			for i := range sc.Steps {
				s.stepNo = i
				s.Wrap = nil
				bodies[sc.Steps[i].Resp.Body] = true
				sleepMS(sc.Steps[i].Sleep)
				_ = s.Do(&sc.Steps[i])
				o := s.Trace[len(s.Trace)-1]
				if o.Err {
					v = fmt.Sprintf("step %d failed", i)
					return
				}
				if o.Contacts == 0 {
					hits++
					l.Add("hit")
				} else {
					l.Add("contact")
				}
				if !bodies[o.Body] || o.Status != 200 {
					v = fmt.Sprintf("step %d: status %d body %q was never sent by the origin", i, o.Status, o.Body)
					return
				}
			}
		})
		if g != "" {
			v = g
		}
	})
	if dl != "" {
		v = "deadlock: " + dl
	}
	return core.Result{Violation: v, NonTrivial: len(sc.Steps) > 1, Labels: l.List()}
}
