package h

import (
	"context"
	"fmt"
	"time"

	"github.com/inklabs/rangedb"

	"verifmc/ctl"
	"verifmc/explore"
)

// subKinds are the subscribed sets of aggregate types (nil: all events).
var subKinds = [][]string{nil, {"ta"}, {"ta", "tb"}}

func startSub(st rangedb.Store, ctx context.Context, types []string, buf int, f func(r *rangedb.Record)) rangedb.RecordSubscription {
	if types == nil {
		return st.AllEventsSubscription(ctx, buf, rangedb.RecordSubscriberFunc(f))
	}
	return st.AggregateTypesSubscription(ctx, buf, rangedb.RecordSubscriberFunc(f), types...)
}

func (h *hist) saveN(thread, stream string, n int) *cop {
	o := h.run(thread, sv(stream, stream[:2], n, -1, ""))
	if o.err != nil {
		h.x.FailSig("save", "save of %s failed: %v", stream, o.err)
	}
	return o
}

// wanted returns the stored records a subscription of the given kind must receive.
func wanted(x *ctl.X, st rangedb.Store, from uint64, types []string) []Rec {
	all, err := drain(st.Events(bgCtx, 0))
	if err != nil {
		x.Fail("reading everything: %v", err)
	}
	return filter(all, func(r Rec) bool { return r.GSN >= from && (types == nil || inSet(r.Typ, types)) })
}

func isPrefix(a, b []Rec) bool {
	return len(a) <= len(b) && recsEqual(a, b[:len(a)])
}

type writerScript struct {
	name  string
	saves [][2]interface{} // stream, n
}

var writerScripts = []writerScript{
	{"a", [][2]interface{}{{"ta!1", 1}}},
	{"a2", [][2]interface{}{{"ta!1", 2}}},
	{"b,a", [][2]interface{}{{"tb!1", 1}, {"ta!2", 1}}},
	{"c,a", [][2]interface{}{{"tc!1", 1}, {"ta!1", 1}}},
}

// fromHarness: StartFrom(g) while writers save.
func fromHarness(kind string, stmt bool, quick, thorough int) *explore.Harness {
	name := "startfrom-" + kind
	if stmt {
		name = "startfrom-stmt-" + kind
	}
	return fromHarnessOver(name, kind, stmt, quick, thorough, []int{0, 1, 10}, []uint64{0, 1, 2, 3, 4}, writerScripts)
}

// fromFewHarness explores fewer cases, deeper.
func fromFewHarness(kind string, quick, thorough int) *explore.Harness {
	return fromHarnessOver("startfrom-few-"+kind, kind, false, quick, thorough, []int{0}, []uint64{0, 2}, []writerScript{writerScripts[0], writerScripts[2]})
}

func fromHarnessOver(name, kind string, stmt bool, quick, thorough int, bufs []int, starts []uint64, writerScripts []writerScript) *explore.Harness {
	return &explore.Harness{Name: name, Quick: quick, Thorough: thorough,
		Doc: fmt.Sprintf("StartFrom(g) for g in %v on a store with 0 or 2 events, buffer sizes %v, 3 kinds of subscription, while every pair of %d writer scripts saves; all interleavings up to the bound; oracle: exactly the matching stored events from g, in order", starts, bufs, len(writerScripts)),
		Cfg: ctl.Config{Background: bgLevelDB, Stmt: stmt, BlockCost: 1, SelectCost: 1, Families: true},
		Body: func(x *ctl.X) {
			pre := 2 * x.ChooseF(2, 0, func(i int) string { return fmt.Sprint(2*i, " events stored before") })
			g := starts[x.ChooseF(len(starts), 0, func(i int) string { return fmt.Sprint("start from ", starts[i]) })]
			k := subKinds[x.ChooseF(len(subKinds), 0, func(i int) string { return fmt.Sprint("types ", subKinds[i]) })]
			buf := bufs[x.ChooseF(len(bufs), 0, func(i int) string { return fmt.Sprint("buffer ", bufs[i]) })]
			w0 := x.ChooseF(len(writerScripts), 0, func(i int) string { return "writer " + writerScripts[i].name })
			w1 := w0 + x.ChooseF(len(writerScripts)-w0, 0, func(i int) string { return "writer " + writerScripts[w0+i].name })
			e := openStore(x, kind, !stmt)
			defer e.Close()
			h := newHist(x, e.St)
			if pre > 0 {
				h.saveN("i", "tb!1", 1)
				h.saveN("i", "ta!1", 1)
			}
			var got []Rec
			sub := startSub(e.St, bgCtx, k, buf, func(r *rangedb.Record) { got = append(got, toRec(r)) })
			x.Explore(true)
			x.Go("sub", func() {
				if err := sub.StartFrom(g); err != nil {
					x.FailSig("start", "StartFrom(%d): %v", g, err)
				}
			})
			for i, w := range []int{w0, w1} {
				th, sc := fmt.Sprintf("w%d", i), writerScripts[w]
				x.Go(th, func() {
					for _, s := range sc.saves {
						h.saveN(th, s[0].(string), s[1].(int))
					}
				})
			}
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "threads %v never finish: %s", stuck, x.Describe())
				return
			}
			h.saveN("z", "ta!9", 1)
			x.Quiesce()
			want := wanted(x, e.St, g, k)
			if !recsEqual(got, want) {
				x.FailSig("delivery", "StartFrom(%d) of %v with %d events before and writers %s, %s (buffer %d) received %s, want %s", g, k, pre,
					writerScripts[w0].name, writerScripts[w1].name, buf, shortRecs(got), shortRecs(want))
			}
			x.Observe("%d %d %v %d %s", pre, g, k, buf, shortRecs(got))
			sub.Stop()
			x.Quiesce()
		}}
}

// dropHarness: subscribers that are dropped or stopped keep a gap-free prefix,
// while a healthy one receives everything and writers finish.
func dropHarness(kind string, quick, thorough int) *explore.Harness {
	bufs := []int{0, 1, 3}
	behaviours := []string{"sleeps 150ms in the 1st", "sleeps 150ms in the 2nd", "sleeps 90ms in each", "blocks in the 1st", "stopped from another thread", "stops itself in the 2nd", "context cancelled from another thread", "panic-free normal", "sleeps 150ms in the 1st, like another one", "blocks in the 1st, like another one"}
	return &explore.Harness{Name: "slow-" + kind, Quick: quick, Thorough: thorough,
		Doc: fmt.Sprintf("a subscriber that %q, for 3 kinds, buffer sizes %v, started live or from 1, next to two healthy ones, while a writer saves 6 events of alternating types; all interleavings and select orders up to the bound, timers in real order; oracle: writer finishes, healthy ones receive everything, the other a gap-free prefix, and stopping frees its goroutines and ends delivery", behaviours, bufs),
		Cfg: ctl.Config{Background: bgLevelDB, BlockCost: 1, SelectCost: 1, Families: true},
		Body: func(x *ctl.X) {
			b := x.ChooseF(len(behaviours), 0, func(i int) string { return behaviours[i] })
			k := subKinds[x.ChooseF(len(subKinds), 0, func(i int) string { return fmt.Sprint("types ", subKinds[i]) })]
			buf := bufs[x.ChooseF(len(bufs), 0, func(i int) string { return fmt.Sprint("buffer ", bufs[i]) })]
			from := x.ChooseF(2, 0, func(i int) string { return []string{"live", "from 1"}[i] })
			e := openStore(x, kind, false)
			defer e.Close()
			h := newHist(x, e.St)
			if from == 1 {
				h.saveN("i", "ta!1", 1)
			}
			var good, goodAB, bad []Rec
			s1 := startSub(e.St, bgCtx, nil, 10, func(r *rangedb.Record) { good = append(good, toRec(r)) })
			s2 := startSub(e.St, bgCtx, []string{"ta", "tb"}, 10, func(r *rangedb.Record) { goodAB = append(goodAB, toRec(r)) })
			must := func(err error) {
				if err != nil {
					x.FailSig("start", "start: %v", err)
				}
			}
			must(s1.StartFrom(1))
			must(s2.Start())
			x.Quiesce()
			base := len(e.goroutines())
			ctx, cancel := context.WithCancel(bgCtx)
			var sub rangedb.RecordSubscription
			stopped := false
			sub = startSub(e.St, ctx, k, buf, func(r *rangedb.Record) {
				bad = append(bad, toRec(r))
				if stopped && x.Failed() {
					return
				}
				switch {
				case b == 0 && len(bad) == 1, b == 1 && len(bad) == 2:
					time.Sleep(150 * time.Millisecond)
				case b == 2:
					time.Sleep(90 * time.Millisecond)
				case b == 3 && len(bad) == 1:
					select {}
				case b == 5 && len(bad) == 2:
					sub.Stop()
				}
			})
			x.Explore(true)
			// a second one of the same kind that behaves the same
			var twin rangedb.RecordSubscription
			var twinGot []Rec
			if b >= 8 {
				b = []int{0, 3}[b-8]
				twin = startSub(e.St, ctx, k, buf, func(r *rangedb.Record) {
					twinGot = append(twinGot, toRec(r))
					if b == 3 {
						select {}
					} else if len(twinGot) == 1 {
						time.Sleep(150 * time.Millisecond)
					}
				})
				must(twin.Start())
			}
			name := behaviours[b]
			if twin != nil {
				name += ", like another one"
			}
			if b == 3 && from == 1 {
				// StartFrom itself would block in the callback, which is the caller's doing.
				must(sub.Start())
			} else if from == 0 {
				must(sub.Start())
			} else {
				must(sub.StartFrom(1))
			}
			fromGSN := uint64(1)
			if from == 1 && b == 3 {
				fromGSN = 2
			}
			x.Go("writer", func() {
				for i, s := range []string{"ta!1", "tb!1", "tc!1", "ta!2", "tb!2", "ta!1"} {
					h.saveN("w", s, 1)
					if i == 2 {
						time.Sleep(120 * time.Millisecond)
					}
				}
			})
			if b == 4 || b == 6 {
				x.Go("stopper", func() {
					if b == 4 {
						sub.Stop()
						sub.Stop()
					} else {
						cancel()
					}
				})
			}
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "threads %v never finish with a subscriber that %q: %s", stuck, name, x.Describe())
				return
			}
			time.Sleep(2 * time.Second)
			x.Quiesce()
			if want := wanted(x, e.St, 1, nil); !recsEqual(good, want) {
				x.FailSig("healthy", "the healthy subscriber next to one that %q received %s, want %s", name, shortRecs(good), shortRecs(want))
			}
			lo := uint64(1)
			if from == 1 {
				lo = 2
			}
			if want := wanted(x, e.St, lo, []string{"ta", "tb"}); !recsEqual(goodAB, want) {
				x.FailSig("healthy", "the healthy live subscriber of ta, tb next to one that %q received %s, want %s", name, shortRecs(goodAB), shortRecs(want))
			}
			want := wanted(x, e.St, fromGSN, k)
			if !isPrefix(bad, want) {
				x.FailSig("gap", "a subscriber of %v (buffer %d) that %q received %s, not a gap-free prefix of %s", k, buf, name, shortRecs(bad), shortRecs(want))
			}
			if twin != nil {
				live := want
				if from == 1 && fromGSN == 1 && len(live) > 0 && live[0].GSN == 1 {
					live = live[1:] // stored before it started
				}
				if !isPrefix(twinGot, live) {
					x.FailSig("gap", "a live subscriber of %v (buffer %d) that %q received %s, not a gap-free prefix of %s", k, buf, name, shortRecs(twinGot), shortRecs(live))
				}
			}
			if b == 7 && len(bad) != len(want) {
				x.FailSig("dropped", "a subscriber of %v (buffer %d) that never blocks received only %s of %s", k, buf, shortRecs(bad), shortRecs(want))
			}
			x.Observe("%d %v %d %d %s", b, k, buf, from, shortRecs(bad))
			// Stop it in the end and see that nothing is left and nothing more is delivered.
			x.Go("stop", func() {
				sub.Stop()
				sub.Stop()
				if twin != nil {
					twin.Stop()
				}
			})
			if s := x.Quiesce(); len(s) > 0 {
				x.FailSig("stop-stuck", "Stop does not return: %s", x.Describe())
				return
			}
			n := len(bad)
			stopped = true
			h.saveN("z", "ta!9", 1)
			h.saveN("z", "tb!9", 1)
			time.Sleep(2 * time.Second)
			x.Quiesce()
			if len(bad) > n {
				x.FailSig("after-stop", "a stopped subscription received %s", shortRecs(bad[n:]))
			}
			if b != 3 {
				if gs := e.goroutines(); len(gs) != base {
					x.FailSig("leak", "%d goroutines after stopping the subscription that %q, %d before it started: %s", len(gs), name, base, x.Describe())
				}
			}
			if want := wanted(x, e.St, 1, nil); !recsEqual(good, want) {
				x.FailSig("healthy", "after stopping: the healthy subscriber received %s, want %s", shortRecs(good), shortRecs(want))
			}
			cancel()
			s1.Stop()
			s2.Stop()
			x.Quiesce()
		}}
}

// liveSubHarness: live subscriptions of several kinds while writers save.
func liveSubHarness(kind string, stmt bool, quick, thorough int) *explore.Harness {
	name := "live-" + kind
	if stmt {
		name = "live-stmt-" + kind
	}
	sets := [][][]string{{nil}, {{"ta"}}, {{"tb", "ta"}}, {nil, {"ta"}}, {{"ta"}, {"ta", "tc"}, {"tb"}}}
	return &explore.Harness{Name: name, Quick: quick, Thorough: thorough,
		Doc: fmt.Sprintf("%d sets of live subscriptions of different and overlapping kinds started while every pair of %d writer scripts saves, on a store with 0 or 3 events stored before; all interleavings up to the bound; oracle: every event whose save began after Start returned, in order, nothing whose save returned before Start was called, nothing of another type, no duplicates", len(sets), len(writerScripts)),
		Cfg: ctl.Config{Background: bgLevelDB, Stmt: stmt, BlockCost: 1, SelectCost: 1, Families: true},
		Body: func(x *ctl.X) {
			set := sets[x.ChooseF(len(sets), 0, func(i int) string { return fmt.Sprint("subscriptions ", sets[i]) })]
			pre := x.ChooseF(2, 0, func(i int) string { return []string{"empty store", "3 events before"}[i] })
			w0 := x.ChooseF(len(writerScripts), 0, func(i int) string { return "writer " + writerScripts[i].name })
			w1 := w0 + x.ChooseF(len(writerScripts)-w0, 0, func(i int) string { return "writer " + writerScripts[w0+i].name })
			e := openStore(x, kind, !stmt)
			defer e.Close()
			h := newHist(x, e.St)
			x.Explore(true)
			if pre == 1 {
				h.saveN("i", "ta!1", 1)
				h.saveN("i", "tb!1", 2)
			}
			type ls struct {
				types     []string
				got       []Rec
				call, ret int
				s         rangedb.RecordSubscription
			}
			subs := make([]*ls, len(set))
			x.Go("sub", func() {
				for i, types := range set {
					s := &ls{types: types}
					s.s = startSub(e.St, bgCtx, types, 10, func(r *rangedb.Record) { s.got = append(s.got, toRec(r)) })
					h.tick++
					s.call = h.tick
					if err := s.s.Start(); err != nil {
						x.FailSig("start", "Start: %v", err)
					}
					h.tick++
					s.ret = h.tick
					subs[i] = s
				}
			})
			for i, w := range []int{w0, w1} {
				th, sc := fmt.Sprintf("w%d", i), writerScripts[w]
				x.Go(th, func() {
					for _, s := range sc.saves {
						h.saveN(th, s[0].(string), s[1].(int))
					}
				})
			}
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "threads %v never finish: %s", stuck, x.Describe())
				return
			}
			h.saveN("z", "ta!9", 1)
			h.saveN("z", "tb!9", 2)
			x.Quiesce()
			all := wanted(x, e.St, 0, nil)
			op := map[string]*cop{}
			for _, o := range h.ops {
				for _, p := range o.payloads {
					op[p] = o
				}
			}
			for _, s := range subs {
				i := 0
				for _, r := range all {
					o := op[payload(r)]
					mustHave := o.call > s.ret && (s.types == nil || inSet(r.Typ, s.types))
					mayHave := o.ret > s.call && (s.types == nil || inSet(r.Typ, s.types))
					if i < len(s.got) && s.got[i] == r {
						if !mayHave {
							sig := "extra"
							if s.types == nil || inSet(r.Typ, s.types) {
								sig = "early" // of the right kind, but saved before
							}
							x.FailSig(sig, "live subscription of %v received %s (of save %s), which it must not (Start %d..%d)", s.types, r, o, s.call, s.ret)
						}
						i++
					} else if mustHave {
						x.FailSig("missing", "live subscription of %v (Start %d..%d) received %s and misses %s saved by %s", s.types, s.call, s.ret, shortRecs(s.got), r, o)
						break
					}
				}
				if i < len(s.got) && !x.Failed() {
					x.FailSig("wrong", "live subscription of %v received %s; stored are %s", s.types, shortRecs(s.got), shortRecs(all))
				}
				x.Observe("%v:%s", s.types, shortRecs(s.got))
				s.s.Stop()
			}
			x.Quiesce()
		}}
}

// stopHarness: stopping at any moment relative to starting.
func stopHarness(kind string, stmt bool, quick, thorough int) *explore.Harness {
	name := "stop-" + kind
	if stmt {
		name = "stop-stmt-" + kind
	}
	modes := []string{"Stop", "cancel", "Stop twice from two threads"}
	return &explore.Harness{Name: name, Quick: quick, Thorough: thorough,
		Doc: "Start or StartFrom(1) with 3 stored events racing with Stop or cancellation and one writer, buffers 0 and 1, 3 kinds; all interleavings up to the bound; oracle: everything returns, a gap-free prefix is received, nothing after the stop has settled, no goroutine is left, starting after it is cancelled fails or delivers nothing",
		Cfg: ctl.Config{Background: bgLevelDB, Stmt: stmt, BlockCost: 1, SelectCost: 1, Families: true},
		Body: func(x *ctl.X) {
			mode := x.ChooseF(len(modes), 0, func(i int) string { return modes[i] })
			k := subKinds[x.ChooseF(len(subKinds), 0, func(i int) string { return fmt.Sprint("types ", subKinds[i]) })]
			buf := x.ChooseF(2, 0, func(i int) string { return fmt.Sprint("buffer ", i) })
			how := x.ChooseF(3, 0, func(i int) string { return []string{"Start", "StartFrom(1)", "cancelled before starting"}[i] })
			e := openStore(x, kind, !stmt)
			defer e.Close()
			h := newHist(x, e.St)
			h.saveN("i", "ta!1", 2)
			h.saveN("i", "tb!1", 1)
			x.Quiesce()
			base := len(e.goroutines())
			ctx, cancel := context.WithCancel(bgCtx)
			var got []Rec
			sub := startSub(e.St, ctx, k, buf, func(r *rangedb.Record) { got = append(got, toRec(r)) })
			if how == 2 {
				cancel()
				for i, f := range []func() error{sub.Start, func() error { return sub.StartFrom(1) }} {
					if err := f(); err == nil {
						x.FailSig("start-cancelled", "starting (%d) a subscription whose context is cancelled reports no error", i)
					}
				}
			}
			x.Explore(true)
			var startErr error
			x.Go("starter", func() {
				switch how {
				case 0:
					startErr = sub.Start()
				case 1:
					startErr = sub.StartFrom(1)
				}
			})
			stop := func() {
				if mode == 1 {
					cancel()
				} else {
					sub.Stop()
				}
			}
			x.Go("stopper", stop)
			if mode == 2 {
				x.Go("stopper2", stop)
			}
			x.Go("writer", func() { h.saveN("w", "ta!1", 1); h.saveN("w", "tb!1", 1) })
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "threads %v never finish: %s", stuck, x.Describe())
				return
			}
			// reads cut short by the cancellation may wait a second for a reader
			time.Sleep(3 * time.Second)
			x.Quiesce()
			if how == 2 && len(got) > 0 {
				x.FailSig("start-cancelled", "a subscription cancelled before it started received %s", shortRecs(got))
			}
			want := wanted(x, e.St, 1, k)
			if how == 0 {
				want = filter(want, func(r Rec) bool { return r.GSN > 3 })
				for len(want) > 0 && len(got) > 0 && want[0] != got[0] {
					want = want[1:] // saved before the start
				}
			}
			if !isPrefix(got, want) {
				x.FailSig("gap", "a stopped subscription of %v (buffer %d) received %s, not a prefix of %s", k, buf, shortRecs(got), shortRecs(want))
			}
			if gs := e.goroutines(); len(gs) != base {
				x.FailSig("leak", "%d goroutines after the subscription was stopped (start error %v), %d before: %s", len(gs), startErr, base, x.Describe())
			}
			n := len(got)
			h.saveN("z", "ta!9", 1)
			x.Quiesce()
			if len(got) > n {
				x.FailSig("after-stop", "a stopped subscription received %s", shortRecs(got[n:]))
			}
			x.Observe("%d %d %v %s", mode, how, startErr, shortRecs(got))
			cancel()
		}}
}

func init() {
	explore.Register(&explore.Property{ID: "C10", Level: "model_checking", Rule: concRule, Assumptions: concAssume,
		Harnesses: []*explore.Harness{
			fromHarness("mem", false, 1, 3), fromFewHarness("mem", 2, 3), fromHarness("ldb", false, 1, 2),
			fromHarness("mem", true, 0, 1), dropHarness("mem", 1, 2), dropHarness("ldb", 0, 1)}})
	explore.Register(&explore.Property{ID: "C11", Level: "model_checking", Rule: concRule, Assumptions: concAssume,
		Harnesses: []*explore.Harness{
			liveSubHarness("mem", false, 2, 3), liveSubHarness("ldb", false, 1, 2), liveSubHarness("mem", true, 1, 1)}})
	explore.Register(&explore.Property{ID: "C12", Level: "model_checking", Rule: concRule, Assumptions: concAssume,
		Harnesses: []*explore.Harness{
			dropHarness("mem", 1, 2), dropHarness("ldb", 1, 1), stopHarness("mem", false, 1, 3), stopHarness("ldb", false, 1, 2), stopHarness("mem", true, 1, 1)}})
}
