package h

import (
	"fmt"
	"math"
	"strings"

	"github.com/inklabs/rangedb"

	"verifmc/ctl"
	"verifmc/explore"
)

var meta1 = map[string]interface{}{"by": "me", "n": "1"}

func two(stream, typ, id string) func(s *seq) {
	return func(s *seq) { s.save(stream, saveOpt{meta: meta1}, s.ev(typ, id, "a"), s.ev(typ, id, "b")) }
}

// saveOps is the alphabet of successful and failing saves on one stream.
func saveOps(stream, typ, id string) []seqOp {
	n := fmt.Sprintf("%q", stream)
	return []seqOp{
		{"save1 " + n, func(s *seq) { s.save(stream, saveOpt{}, s.ev(typ, id, "a")) }},
		{"save2 " + n, two(stream, typ, id)},
		{"osave2 " + n, func(s *seq) { s.save(stream, saveOpt{exp: "c"}, s.ev(typ, id, "a"), s.ev(typ, id, "b")) }},
		{"osave2+1 " + n, func(s *seq) { s.save(stream, saveOpt{exp: "+1"}, s.ev(typ, id, "a"), s.ev(typ, id, "b")) }},
		{"save fail " + n, func(s *seq) { s.save(stream, saveOpt{}, s.ev(typ, id, "FAIL")) }},
		{"save ok,fail " + n, func(s *seq) { s.save(stream, saveOpt{}, s.ev(typ, id, "a"), s.ev(typ, id, "FAIL")) }},
		{"osave ok,ok,fail " + n, func(s *seq) {
			s.save(stream, saveOpt{exp: "c"}, s.ev(typ, id, "a"), s.ev(typ, id, "b"), s.ev(typ, id, "FAIL"))
		}},
		{"save ok,othertype " + n, func(s *seq) { s.save(stream, saveOpt{}, s.ev(typ, id, "a"), s.ev("other", id, "b")) }},
		{"osave ok,ok,otherid " + n, func(s *seq) {
			s.save(stream, saveOpt{exp: "c"}, s.ev(typ, id, "a"), s.ev(typ, id, "b"), s.ev(typ, "9", "c"))
		}},
		{"save cancelled " + n, func(s *seq) { s.save(stream, saveOpt{ctx: -1}, s.ev(typ, id, "a")) }},
		{"save cancelled-in-2nd " + n, func(s *seq) { s.save(stream, saveOpt{ctx: 2}, s.ev(typ, id, "a"), s.ev(typ, id, "b")) }},
		{"osave cancelled-in-1st " + n, func(s *seq) {
			s.save(stream, saveOpt{exp: "c", ctx: 1}, s.ev(typ, id, "a"), s.ev(typ, id, "b"))
		}},
		{"save none " + n, func(s *seq) { s.save(stream, saveOpt{}) }},
	}
}

func del(stream, mode string) seqOp {
	return seqOp{fmt.Sprintf("del %s %q", mode, stream), func(s *seq) { s.del(stream, mode, 0) }}
}

func save1(stream, typ, id string) seqOp {
	return seqOp{fmt.Sprintf("save1 %q", stream), func(s *seq) { s.save(stream, saveOpt{}, s.ev(typ, id, "a")) }}
}

func saveN(n int, stream, typ, id string) seqOp {
	return seqOp{fmt.Sprintf("save%d %q", n, stream), func(s *seq) {
		var evs []*Ev
		for i := 0; i < n; i++ {
			evs = append(evs, s.ev(typ, id, "a"))
		}
		s.save(stream, saveOpt{meta: meta1}, evs...)
	}}
}

var reopenOp = seqOp{"reopen", func(s *seq) { s.reopen() }}

func cat(a ...[]*explore.Harness) []*explore.Harness {
	var r []*explore.Harness
	for _, x := range a {
		r = append(r, x...)
	}
	return r
}

var embedded = []string{"mem", "ldb"}

const seqRule = "one execution per operation sequence (choice of operation at each step, all enumerated), run on the real store and on a list model; an execution is distinct when the sequence of results differs, non-trivial when at least one operation changed or was rejected by the store"

func init() {
	all := func(s *seq) { s.subscribe("all", 0); s.subscribe("ta", 0, "ta") }
	c01ops := append(saveOps("ta!1", "ta", "1"), saveOps("custom", "ta", "1")[:11]...)
	big := strings.Repeat("x", 20<<10)
	c01ops = append(c01ops,
		seqOp{"save big,big,fail", func(s *seq) {
			s.save("ta!1", saveOpt{}, s.ev("ta", "1", big), s.ev("ta", "1", big), s.ev("ta", "1", "FAIL"))
		}},
		seqOp{"save notype,othertype", func(s *seq) { s.save("ta!1", saveOpt{}, s.ev("", "1", "a"), s.ev("ta", "1", "b")) }},
		seqOp{"osave noid,otherid", func(s *seq) {
			s.save("custom", saveOpt{exp: "c"}, s.ev("ta", "", "a"), s.ev("ta", "1", "b"))
		}})
	c01ops = append(c01ops, save1("tb!1", "tb", "1"), del("ta!1", "c"), del("custom", "c"))
	explore.Register(&explore.Property{ID: "C01", Level: "model_checking", Rule: seqRule,
		Assumptions: seqAssume,
		Harnesses: cat(seqSpec{name: "batches", kinds: embedded, names: []string{"ta!1", "custom", "tb!1", "ta!9", "other!1"}, types: []string{"ta", "tb", "other", ""},
			doc: "saves of 0..3 events failing at each position for each cause, on conventional and custom stream names, with subscriptions watching", setup: all, ops: c01ops, quick: 3, thorough: 4, endReopen: true, exact: true}.harnesses(), undecodable(false))})

	c03ops := []seqOp{save1("ta!1", "ta", "1"), saveN(3, "ta!1", "ta", "1"), saveN(2, "tb!1", "tb", "1"),
		{"osave1 c", func(s *seq) { s.save("ta!1", saveOpt{exp: "c"}, s.ev("ta", "1", "o")) }},
		{"save ok,fail", func(s *seq) { s.save("ta!1", saveOpt{}, s.ev("ta", "1", "a"), s.ev("ta", "1", "FAIL")) }},
		{"save cancelled-in-2nd", func(s *seq) { s.save("tb!1", saveOpt{ctx: 2}, s.ev("tb", "1", "a"), s.ev("tb", "1", "b")) }},
		del("ta!1", "c"), del("tb!1", "c"), del("ta!1", "+1"), reopenOp}
	explore.Register(&explore.Property{ID: "C03", Level: "model_checking", Rule: seqRule, Assumptions: seqAssume,
		Harnesses: cat(
			seqSpec{name: "numbers", kinds: embedded, names: []string{"ta!1", "tb!1"}, types: []string{"ta", "tb"},
				doc: "numbers stay gapless per stream, unique and increasing over saves, failures, deletes and reopening", ops: c03ops, quick: 4, thorough: 5, endReopen: true}.harnesses(),
			longHarness("long", embedded))})

	c04ops := []seqOp{save1("ta!1", "ta", "1"), saveN(2, "ta!1", "ta", "1"), saveN(2, "tb!1", "tb", "1"), save1("ta!2", "ta", "2"), save1("odd", "tc", "1"),
		{"save1 ta to odd", func(s *seq) { s.save("odd", saveOpt{}, s.ev("ta", "2", "a")) }}, del("ta!1", "c"), reopenOp}
	explore.Register(&explore.Property{ID: "C04", Level: "model_checking", Rule: seqRule, Assumptions: seqAssume,
		Harnesses: cat(
			seqSpec{name: "reads", kinds: embedded, names: []string{"ta!1", "ta!2", "tb!1", "odd", "none!1"}, types: []string{"ta", "tb", "tc"},
				doc: "every start position and every set of aggregate types after every content", ops: c04ops, quick: 4, thorough: 5, fullLast: true}.harnesses(),
			longHarness("long", embedded))})

	explore.Register(&explore.Property{ID: "C05", Level: "model_checking", Rule: seqRule, Assumptions: append([]string{"names are valid UTF-8 (record serializers are text based)"}, seqAssume...),
		Harnesses: cat(nameHarness(embedded))})

	c06ops := []seqOp{saveN(2, "ta!1", "ta", "1"), save1("ta!2", "ta", "2"), saveN(2, "tb!1", "tb", "1"), save1("odd", "ta", "1"),
		{"save1 tb to odd", func(s *seq) { s.save("odd", saveOpt{}, s.ev("tb", "2", "a")) }},
		del("ta!1", "c"), del("ta!1", "+1"), del("ta!1", "-1"), del("ta!1", "0"), del("ta!1", "max"), del("tb!1", "c"), del("odd", "c"), del("never", "0"),
		{"del cancelled", func(s *seq) { s.del("ta!1", "c", -1) }},
		{"save fail", func(s *seq) { s.save("ta!1", saveOpt{}, s.ev("ta", "1", "a"), s.ev("ta", "1", "FAIL")) }}, reopenOp}
	explore.Register(&explore.Property{ID: "C06", Level: "model_checking", Rule: seqRule, Assumptions: seqAssume,
		Harnesses: cat(seqSpec{name: "deletes", kinds: embedded, names: []string{"ta!1", "ta!2", "tb!1", "odd", "never"}, types: []string{"ta", "tb"},
			doc: "deletes with right, wrong, extreme expectations, of unknown streams, cancelled, between saves", ops: c06ops, quick: 4, thorough: 5, endReopen: true}.harnesses(), undecodable(true))})
}

func undecodable(deletes bool) (hs []*explore.Harness) {
	for _, k := range []string{"mem", "ldb", "ldb-mp"} {
		hs = append(hs, undecodableHarness(k, deletes))
	}
	return
}

var seqAssume = []string{"goleveldb and the Go runtime behave as documented; LevelDB runs on an in-memory device", "one client; concurrency is explored by C02, C07, C08"}

// longHarness checks sequence numbers that need more than one byte or digit.
func longHarness(name string, kinds []string) []*explore.Harness {
	var hs []*explore.Harness
	for _, k := range kinds {
		kind := k
		hs = append(hs, &explore.Harness{Name: name + "-" + kind, ExecsPerGC: 1,
			Doc: "stores with 9..300 events in two interleaved streams: every start position around digit and byte boundaries", Cfg: ctl.Config{Background: bgLevelDB, MaxSteps: 5000000},
			Body: func(x *ctl.X) {
				sizes := []int{9, 10, 11, 99, 101, 255, 256, 257, 300}
				n := sizes[x.ChooseF(len(sizes), 0, func(i int) string { return fmt.Sprint(sizes[i], " events") })]
				e := openStore(x, kind, false)
				defer e.Close()
				s := &seq{Env: e, m: newModel(), names: []string{"ta!1", "tb!1"}, types: []string{"ta", "tb"}}
				s.opName = fmt.Sprintf("%d events", n)
				for i := 0; i < n && !x.Failed(); {
					k := 1
					if i%7 == 0 {
						k = 5
					}
					if i+k > n {
						k = n - i
					}
					var evs []*Ev
					st, ty := "ta!1", "ta"
					if i%3 == 1 {
						st, ty = "tb!1", "tb"
					}
					for j := 0; j < k; j++ {
						evs = append(evs, s.ev(ty, "1", "a"))
					}
					var ers []*rangedb.EventRecord
					for _, ev := range evs {
						ers = append(ers, &rangedb.EventRecord{Event: ev})
					}
					got, err := e.St.Save(bgCtx, st, ers...)
					if err != nil || got != uint64(len(s.m.stream(st))+k) {
						s.fail("save: %d %v", got, err)
					}
					for j, ev := range evs {
						s.m.MaxGSN++
						s.m.Recs = append(s.m.Recs, Rec{Stream: st, Typ: ty, ID: "1", EvType: "Ev", GSN: 0, SSN: uint64(len(s.m.stream(st)) + 1), Data: "*h.Ev" + js(ev), Meta: "null"})
						_ = j
					}
					i += k
				}
				all, err := drain(e.St.Events(bgCtx, 0))
				if err != nil || len(all) != n {
					s.fail("Events(0): %d records, %v", len(all), err)
					return
				}
				last := uint64(0)
				for i, r := range all {
					w := s.m.Recs[i]
					if r.GSN <= last {
						s.fail("global sequence numbers not increasing: %d after %d", r.GSN, last)
					}
					last = r.GSN
					w.GSN, w.EvID, w.TS = r.GSN, r.EvID, r.TS
					if r != w {
						s.fail("record %d is %s, want %s", i, r, w)
					}
					s.m.Recs[i] = r
				}
				for _, st := range []uint64{0, 1, 2, 9, 10, 11, 12, 99, 100, 101, 127, 128, 254, 255, 256, 257, 258, 299, 300, 301, math.MaxUint64} {
					want := func(set []string) []Rec {
						return filter(s.m.Recs, func(r Rec) bool { return r.GSN >= st && inSet(r.Typ, set) })
					}
					s.cmp(fmt.Sprintf("Events(%d)", st), e.St.Events(bgCtx, st), want([]string{"ta", "tb"}))
					s.cmp(fmt.Sprintf("types ta,tb (%d)", st), e.St.EventsByAggregateTypes(bgCtx, st, "ta", "tb"), want([]string{"ta", "tb"}))
					s.cmp(fmt.Sprintf("type tb (%d)", st), e.St.EventsByAggregateTypes(bgCtx, st, "tb"), want([]string{"tb"}))
					for _, sn := range s.names {
						w := filter(s.m.stream(sn), func(r Rec) bool { return r.SSN >= st })
						got, err := drain(e.St.EventsByStream(bgCtx, st, sn))
						if err != nil && !(len(w) == 0 && errKind(err) == "notfound") {
							s.fail("EventsByStream(%d,%s): %v", st, sn, err)
						}
						if !recsEqual(got, w) {
							s.fail("EventsByStream(%d,%s) = %d records, want %d", st, sn, len(got), len(w))
						}
					}
				}
				x.Observe("n=%d", n)
				x.Count(n)
			}})
	}
	return hs
}

type triple struct{ stream, typ, id string }

var oddNames = []triple{
	{"a!1", "a", "1"},
	{"a!1$!bbbbbbbb", "a", "1$!bbbbbbbb"},
	{"a!1$!", "a", "1$!"},
	{"a!11", "a", "11"},
	{"a!", "a", ""},
	{"a", "a$!x", "q"},
	{"", "", ""},
	{"!", "", "x"},
	{"a!1!2", "a", "1!2"},
	{"$all$", "$all$", "$s$"},
	{"$gsn$", "a$!\x00\x00\x00\x00\x00\x00\x00\x01", "g"},
	{"a!1$!\x00\x00\x00\x00\x00\x00\x00\x02", "a", "z"},
	{"x\x00y", "x\x00", "y"},
	{"über/ß%s \"q\" <b>", "über", "%d"},
	{"same", "a", "1"},
	{" a!1 ", "a ", "1 "},
	{"A!1", "A", "1"},
	{"e\u0301!1\n", "e\u0301", "1\n"}, // and its other form, after normalization:
	{"\u00e9!1\n", "\u00e9", "1\n"},
	{longName + "1", longName + "1", "1"},
	{longName + "2", longName + "2", "1"},
}

var longName = strings.Repeat("n", 300)

func noNul(l []triple) []triple {
	var r []triple
	for _, t := range l {
		if !strings.Contains(t.stream+t.typ+t.id, "\x00") {
			r = append(r, t)
		}
	}
	return r
}

func nameHarness(kinds []string) []*explore.Harness {
	var hs []*explore.Harness
	for _, k := range kinds {
		kind := k
		hs = append(hs, &explore.Harness{Name: "names-" + kind,
			Doc: fmt.Sprintf("every ordered pair out of %d adversarial (stream, type, id) names and every sequence of 3 (thorough 4) saves, deletes, failing saves and reopenings on the two, after a first save", len(oddNames)),
			Cfg: ctl.Config{Background: bgLevelDB},
			Body: func(x *ctl.X) {
				oddNames := oddNames
				if kind == "pg" { // PostgreSQL's text has no NUL
					oddNames = noNul(oddNames)
				}
				i := x.ChooseF(len(oddNames), 0, func(i int) string { return fmt.Sprintf("first %q", oddNames[i]) })
				j := x.ChooseF(len(oddNames)-1, 0, func(j int) string { return fmt.Sprintf("second #%d", j) })
				if j >= i {
					j++
				}
				a, b := oddNames[i], oddNames[j]
				ops := []seqOp{saveN(2, a.stream, a.typ, a.id), save1(b.stream, b.typ, b.id), del(a.stream, "c"), del(b.stream, "c"),
					{"save ok,fail a", func(s *seq) {
						s.save(a.stream, saveOpt{}, s.ev(a.typ, a.id, "a"), s.ev(a.typ, a.id, "FAIL"))
					}}, reopenOp}
				sp := seqSpec{names: []string{a.stream, b.stream}, types: []string{a.typ, b.typ}, ops: ops, quick: 3, thorough: 4, endReopen: true}
				if a.typ == b.typ {
					sp.types = sp.types[:1]
				}
				if kind == "mem" {
					sp.ops = ops[:5]
				}
				sp.setup = func(s *seq) {
					s.subscribe("a", 0, a.typ)
					ops[0].run(s)
				}
				sp.body(x, kind)
			}})
	}
	return hs
}
