package h

import (
	"context"
	"fmt"
	"math"
	"strings"

	"github.com/inklabs/rangedb"

	"verifmc/ctl"
	"verifmc/explore"
)

// seq runs operation sequences against a store and the reference model.
type seq struct {
	*Env
	m       *Model
	n       int
	names   []string // streams that are looked at
	types   []string
	subs    []*subRec
	noReads bool
	exact   bool // numbers are assigned without gaps
	opName  string
}

type subRec struct {
	name    string
	types   []string // nil: all
	start   uint64
	got     []Rec
	from    int // model position (number of records ever saved) when started
	s       rangedb.RecordSubscription
	preRecs []Rec
}

type saveOpt struct {
	exp  string // "" none, "c" correct, "+1", "-1", "0", "max"
	ctx  int    // 0 normal, -1 cancelled before, k>0: cancelled when event k is inspected
	meta interface{}
}

func (s *seq) ev(typ, id, p string) *Ev {
	s.n++
	return &Ev{Typ: typ, ID: id, P: fmt.Sprintf("%s%d", p, s.n)}
}

func (s *seq) fail(format string, args ...interface{}) {
	s.X.FailSig("mismatch", "after "+s.opName+": "+format, args...)
}

func expected(mode string, cur uint64) uint64 {
	switch mode {
	case "c":
		return cur
	case "+1":
		return cur + 1
	case "-1":
		return cur - 1
	case "0":
		return 0
	case "max":
		return math.MaxUint64
	}
	panic(mode)
}

// save performs one save and compares the result with the reference model.
func (s *seq) save(stream string, o saveOpt, evs ...*Ev) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var ers []*rangedb.EventRecord
	for i, e := range evs {
		var meta interface{}
		if i == 0 {
			meta = o.meta
		}
		ers = append(ers, &rangedb.EventRecord{Event: e, Metadata: meta})
	}
	cur := s.m.stream(stream)
	curN := uint64(len(cur))
	mustFail, mayFail := "", ""
	if len(evs) == 0 {
		mustFail = "no events"
	}
	for i, e := range evs {
		if e.Typ != evs[0].Typ || e.ID != evs[0].ID {
			mustFail = "mixed types or ids"
		}
		if strings.HasPrefix(e.P, "FAIL") {
			mustFail = "unserializable event"
		}
		if o.ctx == i+1 {
			e.onType = cancel
			mayFail = "cancelled during the call"
		}
	}
	if o.ctx < 0 {
		cancel()
		mustFail = "cancelled before the call"
	}
	var got uint64
	var err error
	exp := uint64(0)
	if o.exp == "" {
		got, err = s.St.Save(ctx, stream, ers...)
	} else {
		exp = expected(o.exp, curN)
		got, err = s.St.OptimisticSave(ctx, exp, stream, ers...)
	}
	for _, e := range evs {
		e.onType = nil
	}
	s.X.Logf("%s -> %d %v", s.opName, got, err)
	s.X.Observe("%s=%d,%s", s.opName, got, errKind(err))
	if o.exp != "" && exp != curN {
		want := fmt.Sprintf("unexpected(%d,%d)", exp, curN)
		if err == nil {
			s.fail("optimistic save with expectation %d of a stream at %d succeeded (returned %d)", exp, curN, got)
		} else if mustFail == "" && mayFail == "" && errKind(err) != want {
			s.fail("optimistic save: error %q (%s), want %s", err, errKind(err), want)
		}
		return
	}
	if mustFail != "" {
		if err == nil {
			s.fail("save with %s succeeded (returned %d)", mustFail, got)
		}
		return
	}
	if err != nil {
		if mayFail == "" {
			s.fail("valid save failed: %v", err)
		}
		return
	}
	if got != curN+uint64(len(evs)) {
		s.fail("save returned sequence number %d, want %d", got, curN+uint64(len(evs)))
	}
	// Learn the assigned numbers from the stream view.
	all, rerr := drain(s.St.EventsByStream(context.Background(), 0, stream))
	if rerr != nil {
		s.fail("reading back: %v", rerr)
		return
	}
	if len(all) < len(evs) {
		s.fail("stream has %d records after saving %d", len(all), len(evs))
		return
	}
	recs := all[len(all)-len(evs):]
	for i, r := range recs {
		e := evs[i]
		meta := "null"
		if i == 0 && o.meta != nil {
			meta = js(o.meta)
		}
		if r.Stream != stream || r.Typ != e.Typ || r.ID != e.ID || r.EvType != "Ev" || r.Data != "*h.Ev"+js(e) || r.Meta != meta || r.EvID == "" {
			s.fail("stored record %d is %s, saved %s to %q", i, r, js(e), stream)
		}
		if r.SSN != curN+uint64(i)+1 {
			s.fail("record %s has stream sequence number %d, want %d", r, r.SSN, curN+uint64(i)+1)
		}
		if r.GSN <= s.m.MaxGSN {
			s.fail("record %s has global sequence number %d, not above every earlier one (%d)", r, r.GSN, s.m.MaxGSN)
		}
		if s.exact && r.GSN != s.m.MaxGSN+1 {
			s.fail("record %s has global sequence number %d, the one before had %d: a failed save left a gap", r, r.GSN, s.m.MaxGSN)
		}
		if s.m.EvIDs[r.EvID] {
			s.fail("event id %q assigned twice", r.EvID)
		}
		s.m.EvIDs[r.EvID] = true
		s.m.MaxGSN = r.GSN
		s.m.Recs = append(s.m.Recs, r)
		s.m.Log = append(s.m.Log, r)
	}
}

func (s *seq) del(stream, mode string, ctxMode int) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if ctxMode < 0 {
		cancel()
	}
	cur := s.m.stream(stream)
	exp := expected(mode, uint64(len(cur)))
	err := s.St.OptimisticDeleteStream(ctx, exp, stream)
	s.X.Logf("%s -> %v", s.opName, err)
	s.X.Observe("%s=%s", s.opName, errKind(err))
	want := "ok"
	if len(cur) == 0 {
		want = "notfound"
	} else if exp != uint64(len(cur)) {
		want = fmt.Sprintf("unexpected(%d,%d)", exp, len(cur))
	}
	if ctxMode < 0 {
		if err == nil {
			s.fail("delete with a cancelled context succeeded")
			s.m.delete(stream)
		}
		return
	}
	if k := errKind(err); k != want {
		s.fail("delete of %q with expectation %d: %s (%v), want %s", stream, exp, k, err, want)
	}
	if err == nil {
		s.m.delete(stream)
	}
}

func (s *seq) reopen() {
	if s.Kind != "ldb" && s.Kind != "enc-ldb" && s.Kind != "pg" {
		return
	}
	// Subscriptions belong to the store instance that is closed here.
	s.checkSubs()
	for _, r := range s.subs {
		r.s.Stop()
	}
	if len(s.subs) > 0 {
		s.X.Quiesce()
		s.subs = nil
	}
	s.keep = true
	if err := s.stop(); err != nil {
		s.fail("stop: %v", err)
	}
	s.keep = false
	open := s.openLDB
	if s.Kind == "pg" {
		open = s.openPg
	}
	if err := open(); err != nil {
		s.fail("reopen: %v", err)
	}
}

func (s *seq) subscribe(name string, start int64, types ...string) {
	r := &subRec{name: name, types: types, from: len(s.m.Log)}
	acc := rangedb.RecordSubscriberFunc(func(rec *rangedb.Record) { r.got = append(r.got, toRec(rec)) })
	if types == nil {
		r.s = s.St.AllEventsSubscription(context.Background(), 10, acc)
	} else {
		r.s = s.St.AggregateTypesSubscription(context.Background(), 10, acc, types...)
	}
	var err error
	if start < 0 {
		err = r.s.Start()
	} else {
		r.start = uint64(start)
		r.from = -1
		err = r.s.StartFrom(uint64(start))
	}
	if err != nil {
		s.fail("starting subscription %s: %v", name, err)
	}
	if r.from < 0 {
		// what is stored now counts, from start on
		r.from = len(s.m.Log)
		var pre []Rec
		for _, rec := range s.m.Recs {
			if rec.GSN >= r.start {
				pre = append(pre, rec)
			}
		}
		r.pre(pre)
	}
	s.subs = append(s.subs, r)
}

func (r *subRec) pre(recs []Rec) { r.preRecs = recs }

func (s *seq) checkSubs() {
	if len(s.subs) == 0 {
		return
	}
	s.X.Quiesce()
	for _, r := range s.subs {
		var want []Rec
		for _, x := range r.preRecs {
			if r.types == nil || inSet(x.Typ, r.types) {
				want = append(want, x)
			}
		}
		for _, x := range s.m.Log[r.from:] {
			if x.GSN >= r.start && (r.types == nil || inSet(x.Typ, r.types)) {
				want = append(want, x)
			}
		}
		if !recsEqual(r.got, want) {
			s.fail("subscription %s received %s, want %s", r.name, showRecs(r.got), showRecs(want))
		}
	}
}

func (s *seq) cmp(what string, it rangedb.RecordIterator, want []Rec) {
	got, err := drain(it)
	if err != nil {
		s.fail("%s: error %v", what, err)
		return
	}
	if !recsEqual(got, want) {
		s.fail("%s = %s, want %s", what, showRecs(got), showRecs(want))
	}
	if it.Next() {
		s.fail("%s: Next is true after the end", what)
	}
}

// check compares every view with the model; full compares every start position
// and every set of types too.
func (s *seq) check(full bool) {
	if s.X.Failed() {
		return
	}
	ctx := context.Background()
	starts := []uint64{0}
	if full {
		for i := uint64(1); i <= s.m.MaxGSN+2; i++ {
			starts = append(starts, i)
		}
		starts = append(starts, s.maxStart())
	}
	for _, st := range starts {
		s.cmp(fmt.Sprintf("Events(%d)", st), s.St.Events(ctx, st), filter(s.m.Recs, func(r Rec) bool { return r.GSN >= st }))
	}
	var sets [][]string
	for _, t := range s.types {
		sets = append(sets, []string{t})
	}
	if full {
		sets = subsets(append(append([]string(nil), s.types...), "no-such-type"))
		// a type given twice
		if n := len(s.types); n > 0 {
			sets = append(sets, []string{s.types[0], s.types[0]}, []string{s.types[n-1], s.types[0], s.types[n-1]})
		}
	}
	for _, set := range sets {
		for _, st := range starts {
			s.cmp(fmt.Sprintf("EventsByAggregateTypes(%d,%q)", st, set), s.St.EventsByAggregateTypes(ctx, st, set...),
				filter(s.m.Recs, func(r Rec) bool { return r.GSN >= st && inSet(r.Typ, set) }))
		}
	}
	for _, n := range s.names {
		cur := s.m.stream(n)
		tot, err := s.St.TotalEventsInStream(ctx, n)
		if err != nil || tot != uint64(len(cur)) {
			s.fail("TotalEventsInStream(%q) = %d, %v; want %d", n, tot, err, len(cur))
		}
		sstarts := []uint64{0}
		if full {
			for i := uint64(1); i <= uint64(len(cur))+2; i++ {
				sstarts = append(sstarts, i)
			}
			sstarts = append(sstarts, s.maxStart())
		}
		for _, st := range sstarts {
			it := s.St.EventsByStream(ctx, st, n)
			want := filter(cur, func(r Rec) bool { return r.SSN >= st })
			got, err := drain(it)
			what := fmt.Sprintf("EventsByStream(%d,%q)", st, n)
			if len(cur) == 0 {
				if errKind(err) != "notfound" || len(got) > 0 {
					s.fail("%s of an unknown stream = %s, %v; want stream not found", what, showRecs(got), err)
				}
				continue
			}
			if err != nil && !(len(want) == 0 && errKind(err) == "notfound") {
				s.fail("%s: error %v", what, err)
			}
			if !recsEqual(got, want) {
				s.fail("%s = %s, want %s", what, showRecs(got), showRecs(want))
			}
		}
	}
}

// maxStart is the highest start position the store's kind takes.
func (s *seq) maxStart() uint64 {
	if s.Pg != nil {
		return math.MaxInt32
	}
	return math.MaxUint64
}

func subsets(s []string) [][]string {
	var r [][]string
	for b := 0; b < 1<<len(s); b++ {
		var x []string
		// reverse order in half of them: the order of the arguments must not matter
		for i := range s {
			j := i
			if b%2 == 1 {
				j = len(s) - 1 - i
			}
			if b&(1<<j) != 0 {
				x = append(x, s[j])
			}
		}
		r = append(r, x)
	}
	return r
}

type seqOp struct {
	name string
	run  func(s *seq)
}

type seqSpec struct {
	name      string
	doc       string
	kinds     []string
	names     []string
	types     []string
	setup     func(s *seq)
	ops       []seqOp
	quick     int // depth
	thorough  int
	fullLast  bool
	endReopen bool
	final     func(s *seq)
	open      func(x *ctl.X, kind string) *Env
	exact     bool // failed saves leave no gap in the global sequence numbers
	gc        int
}

// harnesses builds one harness per store kind.
func (sp seqSpec) harnesses() []*explore.Harness {
	var hs []*explore.Harness
	for _, k := range sp.kinds {
		kind := k
		hs = append(hs, &explore.Harness{
			Name: sp.name + "-" + kind,
			Doc: fmt.Sprintf("every sequence of operations of length %d (thorough %d) over %d operations on the %s store, all views compared with a list model after each step: %s",
				sp.quick, sp.thorough, len(sp.ops), kind, sp.doc),
			Cfg:        ctl.Config{Background: bgLevelDB},
			ExecsPerGC: sp.gc,
			Body:       func(x *ctl.X) { sp.body(x, kind) },
		})
	}
	return hs
}

func (sp seqSpec) body(x *ctl.X, kind string) {
	open := sp.open
	if open == nil {
		open = func(x *ctl.X, kind string) *Env { return openStore(x, kind, false) }
	}
	e := open(x, kind)
	if x.Failed() {
		return
	}
	defer e.Close()
	s := &seq{Env: e, m: newModel(), names: sp.names, types: sp.types, exact: sp.exact}
	s.opName = "setup"
	if sp.setup != nil {
		sp.setup(s)
		s.check(false)
		s.checkSubs()
	}
	depth := explore.Tier(sp.quick, sp.thorough)
	var trail []string
	for d := 0; d < depth && !x.Failed(); d++ {
		i := x.ChooseF(len(sp.ops), 0, func(i int) string { return sp.ops[i].name })
		trail = append(trail, sp.ops[i].name)
		s.opName = strings.Join(trail, ", ")
		sp.ops[i].run(s)
		if !x.Replaying() {
			s.check(sp.fullLast && d == depth-1)
			s.checkSubs()
		}
	}
	if sp.endReopen && !x.Failed() {
		s.opName += ", reopen"
		s.reopen()
		s.check(false)
		s.save("zz!1", saveOpt{}, s.ev("zz", "1", "z"))
		s.names = append(append([]string(nil), s.names...), "zz!1")
		s.check(false)
	}
	if sp.final != nil && !x.Failed() {
		sp.final(s)
	}
	for _, r := range s.subs {
		r.s.Stop()
	}
	if len(s.subs) > 0 {
		x.Quiesce()
	}
}
