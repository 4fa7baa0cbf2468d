package h

import (
	"context"
	"fmt"
	"strings"

	"github.com/inklabs/rangedb"

	"verifmc/ctl"
	"verifmc/explore"
)

type namedOp struct {
	name string
	ops  []cop
}

func sv(stream, typ string, n, exp int, fail string) cop {
	return cop{kind: "save", stream: stream, typ: typ, n: n, exp: exp, fail: fail}
}
func dl(stream string, exp int) cop { return cop{kind: "del", stream: stream, exp: exp} }

var (
	rdAll    = cop{kind: "all"}
	rdAll2   = cop{kind: "all", start: 2}
	rdTypes  = cop{kind: "types", types: []string{"ta", "tb"}}
	rdType   = cop{kind: "types", types: []string{"ta"}}
	rdStream = cop{kind: "stream", stream: "ta!1"}
	rdTotal  = cop{kind: "total", stream: "ta!1"}
)

var concAlphabet = []namedOp{
	{"save2", []cop{sv("ta!1", "ta", 2, -1, "")}},
	{"save b", []cop{sv("tb!1", "tb", 1, -1, "")}},
	{"osave2@1", []cop{sv("ta!1", "ta", 2, 1, "")}},
	{"osave ok,fail@1", []cop{sv("ta!1", "ta", 2, 1, "ser")}},
	{"save ok,mixed", []cop{sv("ta!1", "ta", 2, -1, "mixed")}},
	{"save ok,cancel", []cop{sv("tb!1", "tb", 2, -1, "cancel")}},
	{"del@1", []cop{dl("ta!1", 1)}},
	{"del@3", []cop{dl("ta!1", 3)}},
	{"all", []cop{rdAll}},
	{"types", []cop{rdTypes}},
	{"stream", []cop{rdStream}},
	{"total", []cop{rdTotal}},
	{"save b;save a", []cop{sv("tb!1", "tb", 1, -1, ""), sv("ta!1", "ta", 1, -1, "")}},
	{"save a;save b", []cop{sv("ta!1", "ta", 1, -1, ""), sv("tb!1", "tb", 1, -1, "")}},
	{"del@1;save b", []cop{dl("ta!1", 1), sv("tb!1", "tb", 1, -1, "")}},
	{"save2;del@3", []cop{sv("ta!1", "ta", 2, -1, ""), dl("ta!1", 3)}},
	{"all;type", []cop{rdAll, rdType}},
}

var optAlphabet = []namedOp{
	{"osave1@1", []cop{sv("ta!1", "ta", 1, 1, "")}},
	{"osave2@1", []cop{sv("ta!1", "ta", 2, 1, "")}},
	{"osave ok,fail@1", []cop{sv("ta!1", "ta", 2, 1, "ser")}},
	{"osave1@0", []cop{sv("ta!1", "ta", 1, 0, "")}},
	{"osave1@2", []cop{sv("ta!1", "ta", 1, 2, "")}},
	{"del@1", []cop{dl("ta!1", 1)}},
	{"del@2", []cop{dl("ta!1", 2)}},
	{"save1", []cop{sv("ta!1", "ta", 1, -1, "")}},
	{"del@1;osave1@0", []cop{dl("ta!1", 1), sv("ta!1", "ta", 1, 0, "")}},
	{"del unknown", []cop{dl("none!1", 0)}},
}

// concHarness explores all interleavings of n threads, each running one script
// of the alphabet (all combinations), and checks linearizability.
func concHarness(name, kind string, alphabet []namedOp, n int, stmt bool, quick, thorough int, thoroughOnly bool) *explore.Harness {
	how := "scheduling points at every synchronization operation and inside every injected clock, id and serializer call"
	if stmt {
		how = "a scheduling point before every statement of the repository"
	}
	return &explore.Harness{Name: name + "-" + kind, Quick: quick, Thorough: thorough, ThoroughOnly: thoroughOnly,
		Doc: fmt.Sprintf("every combination of %d threads over %d scripts, all interleavings up to the preemption bound with %s; oracle: brute-force linearizability against a list model incl. final reads of every view, and no thread stuck", n, len(alphabet), how),
		Cfg: ctl.Config{Background: bgLevelDB, Stmt: stmt, BlockCost: 1, SelectCost: 1, Families: true},
		Body: func(x *ctl.X) {
			var scripts []namedOp
			lo := 0
			for i := 0; i < n; i++ {
				l := lo
				k := x.ChooseF(len(alphabet)-l, 0, func(k int) string { return "script " + alphabet[l+k].name })
				scripts = append(scripts, alphabet[l+k])
				lo += k
			}
			e := openStore(x, kind, !stmt)
			defer e.Close()
			h := newHist(x, e.St)
			h.run("init", sv("ta!1", "ta", 1, -1, ""))
			h.run("init", sv("tb!1", "tb", 1, -1, ""))
			x.Explore(true)
			for i, sc := range scripts {
				sc := sc
				th := fmt.Sprintf("t%d", i)
				x.Go(th, func() {
					for _, o := range sc.ops {
						h.run(th, o)
					}
				})
			}
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "threads %v never finish (scripts %s): %s", stuck, scriptNames(scripts), x.Describe())
				return
			}
			for _, o := range []cop{rdAll, rdTypes, rdStream, rdTotal, sv("ta!1", "ta", 1, -1, ""), rdAll} {
				h.run("final", o)
			}
			h.check()
			h.observe()
		}}
}

func scriptNames(s []namedOp) string {
	var r []string
	for _, o := range s {
		r = append(r, o.name)
	}
	return strings.Join(r, " || ")
}

// liveHarness checks that no combination of operations blocks the store.
func liveHarness(kind string, stmt bool, quick, thorough int) *explore.Harness {
	type script struct {
		name string
		run  func(x *ctl.X, st rangedb.Store, p string)
	}
	save := func(x *ctl.X, st rangedb.Store, stream, p string) {
		_, err := st.Save(bgCtx, stream, &rangedb.EventRecord{Event: &Ev{Typ: stream[:2], ID: "1", P: p}})
		if err != nil {
			x.FailSig("save", "save failed: %v", err)
		}
	}
	scripts := []script{
		{"save", func(x *ctl.X, st rangedb.Store, p string) { save(x, st, "ta!1", p) }},
		{"save;save", func(x *ctl.X, st rangedb.Store, p string) { save(x, st, "ta!1", p); save(x, st, "tb!1", p) }},
		{"failing saves", func(x *ctl.X, st rangedb.Store, p string) {
			_, _ = st.Save(bgCtx, "ta!1", &rangedb.EventRecord{Event: &Ev{Typ: "ta", ID: "1", P: "FAIL"}})
			_, _ = st.Save(bgCtx, "ta!1")
			_, _ = st.OptimisticSave(bgCtx, 77, "ta!1", &rangedb.EventRecord{Event: &Ev{Typ: "ta", ID: "1", P: "x"}})
		}},
		{"rejected deletes", func(x *ctl.X, st rangedb.Store, p string) {
			_ = st.OptimisticDeleteStream(bgCtx, 77, "ta!1")
			_ = st.OptimisticDeleteStream(bgCtx, 0, "none!1")
		}},
		{"delete", func(x *ctl.X, st rangedb.Store, p string) { _ = st.OptimisticDeleteStream(bgCtx, 2, "ta!1") }},
		{"two iterators", func(x *ctl.X, st rangedb.Store, p string) {
			a := st.Events(bgCtx, 0)
			a.Next()
			b := st.EventsByAggregateTypes(bgCtx, 0, "ta", "tb")
			b.Next()
			_, _ = st.TotalEventsInStream(bgCtx, "ta!1")
			_, _ = drain(st.EventsByStream(bgCtx, 0, "ta!1"))
			_, _ = drain(b)
			_, _ = drain(a)
		}},
		{"save while iterating", func(x *ctl.X, st rangedb.Store, p string) {
			a := st.EventsByAggregateTypes(bgCtx, 0, "ta", "tb")
			for i := 0; a.Next(); i++ {
				if i == 0 {
					save(x, st, "ta!1", p)
				}
			}
		}},
		{"cancelled reader", func(x *ctl.X, st rangedb.Store, p string) {
			ctx, cancel := context.WithCancel(bgCtx)
			a := st.EventsByAggregateTypes(ctx, 0, "ta", "tb")
			a.Next()
			b := st.Events(ctx, 0)
			b.Next()
			cancel()
		}},
		{"subscriber that saves", func(x *ctl.X, st rangedb.Store, p string) {
			n := 0
			sub := st.AllEventsSubscription(bgCtx, 10, rangedb.RecordSubscriberFunc(func(r *rangedb.Record) {
				n++
				if n == 1 {
					save(x, st, "tb!1", p)
				}
				_, _ = drain(st.EventsByStream(bgCtx, 0, "ta!1"))
			}))
			if err := sub.StartFrom(0); err != nil {
				x.FailSig("start", "StartFrom: %v", err)
			}
			sub.Stop()
		}},
		{"live subscriber that saves", func(x *ctl.X, st rangedb.Store, p string) {
			n := 0
			sub := st.AggregateTypesSubscription(bgCtx, 1, rangedb.RecordSubscriberFunc(func(r *rangedb.Record) {
				n++
				if n == 1 {
					save(x, st, "tb!1", p)
					_ = st.OptimisticDeleteStream(bgCtx, 55, "tb!1")
				}
			}), "ta", "tb")
			if err := sub.Start(); err != nil {
				x.FailSig("start", "Start: %v", err)
			}
			save(x, st, "ta!1", p)
		}},
		{"subscriber that never returns", func(x *ctl.X, st rangedb.Store, p string) {
			sub := st.AllEventsSubscription(bgCtx, 0, rangedb.RecordSubscriberFunc(func(r *rangedb.Record) { select {} }))
			_ = sub.Start()
			save(x, st, "ta!1", p)
			save(x, st, "ta!1", p)
		}},
		{"stopping subscriber", func(x *ctl.X, st rangedb.Store, p string) {
			var sub rangedb.RecordSubscription
			sub = st.AllEventsSubscription(bgCtx, 0, rangedb.RecordSubscriberFunc(func(r *rangedb.Record) { sub.Stop() }))
			_ = sub.Start()
			save(x, st, "ta!1", p)
			sub.Stop()
			sub.Stop()
		}},
	}
	how := ""
	if stmt {
		how = " (a scheduling point before every statement)"
	}
	name := "progress-" + kind
	if stmt {
		name = "progress-stmt-" + kind
	}
	return &explore.Harness{Name: name, Quick: quick, Thorough: thorough,
		Doc: fmt.Sprintf("every pair out of %d scripts of readers, writers, failing operations and subscribers, run concurrently, all interleavings up to the preemption bound%s; oracle: every call returns, and afterwards the store still saves, reads and deletes", len(scripts), how),
		Cfg: ctl.Config{Background: bgLevelDB, Stmt: stmt, BlockCost: 1, SelectCost: 1, Families: true},
		Body: func(x *ctl.X) {
			i := x.ChooseF(len(scripts), 0, func(i int) string { return "script " + scripts[i].name })
			j := i + x.ChooseF(len(scripts)-i, 0, func(j int) string { return "script " + scripts[i+j].name })
			e := openStore(x, kind, !stmt)
			save(x, e.St, "ta!1", "i1")
			save(x, e.St, "ta!1", "i2")
			save(x, e.St, "tb!1", "i3")
			x.Explore(true)
			x.Go("t0", func() { scripts[i].run(x, e.St, "p0") })
			x.Go("t1", func() { scripts[j].run(x, e.St, "p1") })
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "threads %v never finish (%s || %s): %s", stuck, scripts[i].name, scripts[j].name, x.Describe())
				return
			}
			x.Go("after", func() {
				save(x, e.St, "tc!1", "f")
				_, err := drain(e.St.EventsByAggregateTypes(bgCtx, 0, "ta", "tb", "tc"))
				if err != nil {
					x.FailSig("read", "reading afterwards: %v", err)
				}
				if err := e.St.OptimisticDeleteStream(bgCtx, 1, "tc!1"); err != nil {
					x.FailSig("delete", "deleting afterwards: %v", err)
				}
			})
			if stuck := x.Quiesce(); len(stuck) > 0 {
				x.FailSig("stuck-after", "the store is blocked after %s || %s: %s", scripts[i].name, scripts[j].name, x.Describe())
				return
			}
			x.Observe("%s|%s", scripts[i].name, scripts[j].name)
			e.Close()
		}}
}

const concRule = "one execution per combination of scripts and schedule (all schedules up to the deviation bound); distinct when the results of the operations differ"

var concAssume = []string{"preemptions up to the stated bound, at the stated points; goroutines of goleveldb itself run as soon as they can", "goleveldb and the Go runtime behave as documented"}

func init() {
	explore.Register(&explore.Property{ID: "C02", Level: "model_checking", Rule: concRule, Assumptions: concAssume,
		Harnesses: []*explore.Harness{
			concHarness("pairs-stmt", "mem", optAlphabet, 2, true, 1, 2, false),
			concHarness("pairs-stmt", "ldb", optAlphabet, 2, true, 1, 2, false),
			concHarness("triples", "mem", optAlphabet, 3, false, 1, 3, false),
			concHarness("triples", "ldb", optAlphabet, 3, false, 1, 2, false),
		}})
	explore.Register(&explore.Property{ID: "C07", Level: "model_checking", Rule: concRule, Assumptions: concAssume,
		Harnesses: []*explore.Harness{
			concHarness("pairs-stmt", "mem", concAlphabet, 2, true, 1, 3, false),
			concHarness("pairs-stmt", "ldb", concAlphabet, 2, true, 1, 2, false),
			concHarness("pairs", "mem", concAlphabet, 2, false, 2, 3, false),
			concHarness("pairs", "ldb", concAlphabet, 2, false, 1, 2, false),
			concHarness("triples", "mem", concAlphabet, 3, false, 1, 2, false),
			concHarness("triples", "ldb", concAlphabet, 3, false, 0, 1, false),
		}})
	explore.Register(&explore.Property{ID: "C08", Level: "model_checking", Rule: concRule, Assumptions: concAssume,
		Harnesses: []*explore.Harness{
			liveHarness("mem", false, 1, 2), liveHarness("ldb", false, 1, 2),
			liveHarness("mem", true, 1, 1), liveHarness("ldb", true, 0, 1),
		}})
}
