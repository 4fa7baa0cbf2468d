package h

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/syndtr/goleveldb/leveldb"

	"verifmc/ctl"
	"verifmc/explore"
)

// openReadStore opens the store kinds that C09 reads through.
var readKinds = []string{"mem", "ldb"}

type readKind struct {
	name string
	open func(st rangedb.Store, ctx context.Context) rangedb.RecordIterator
	want func(r Rec) bool
}

var readsOf = []readKind{
	{"all", func(st rangedb.Store, ctx context.Context) rangedb.RecordIterator { return st.Events(ctx, 0) }, func(Rec) bool { return true }},
	{"all from 3", func(st rangedb.Store, ctx context.Context) rangedb.RecordIterator { return st.Events(ctx, 3) }, func(r Rec) bool { return r.GSN >= 3 }},
	{"type ta", func(st rangedb.Store, ctx context.Context) rangedb.RecordIterator {
		return st.EventsByAggregateTypes(ctx, 0, "ta")
	}, func(r Rec) bool { return r.Typ == "ta" }},
	{"types ta,tb", func(st rangedb.Store, ctx context.Context) rangedb.RecordIterator {
		return st.EventsByAggregateTypes(ctx, 0, "ta", "tb")
	}, func(r Rec) bool { return r.Typ == "ta" || r.Typ == "tb" }},
	{"types tc,tb,ta from 2", func(st rangedb.Store, ctx context.Context) rangedb.RecordIterator {
		return st.EventsByAggregateTypes(ctx, 2, "tc", "tb", "ta")
	}, func(r Rec) bool { return r.GSN >= 2 && r.Typ != "td" }},
	{"stream ta!1", func(st rangedb.Store, ctx context.Context) rangedb.RecordIterator {
		return st.EventsByStream(ctx, 0, "ta!1")
	}, func(r Rec) bool { return r.Stream == "ta!1" }},
	{"stream ta!1 from 2", func(st rangedb.Store, ctx context.Context) rangedb.RecordIterator {
		return st.EventsByStream(ctx, 2, "ta!1")
	}, func(r Rec) bool { return r.Stream == "ta!1" && r.SSN >= 2 }},
}

// fillReads stores seven events in four streams of three types.
func fillReads(x *ctl.X, st rangedb.Store) {
	n := 0
	for _, s := range []struct {
		stream string
		n      int
	}{{"ta!1", 2}, {"tb!1", 1}, {"ta!2", 1}, {"tc!1", 1}, {"ta!1", 1}, {"tb!2", 1}} {
		var ers []*rangedb.EventRecord
		for i := 0; i < s.n; i++ {
			n++
			ers = append(ers, &rangedb.EventRecord{Event: &Ev{Typ: s.stream[:2], ID: idOf(s.stream), P: fmt.Sprintf("p%d", n)}})
		}
		if _, err := st.Save(bgCtx, s.stream, ers...); err != nil {
			x.Fail("filling the store: %v", err)
		}
	}
}

// step advances an iterator in one of the two ways.
func step(it rangedb.RecordIterator, how int) bool {
	if how == 0 {
		return it.Next()
	}
	return it.NextContext(bgCtx)
}

// checkEnd checks an iterator that reported its end after got out of want.
func checkEnd(x *ctl.X, what string, it rangedb.RecordIterator, got, want []Rec, mustErr bool) {
	err := it.Err()
	if !isPrefix(got, want) {
		x.FailSig("wrong-records", "%s delivered %s, not a prefix of %s", what, shortRecs(got), shortRecs(want))
		return
	}
	if len(got) < len(want) && err == nil {
		x.FailSig("silent-end", "%s ended after %d of %d records without an error", what, len(got), len(want))
	}
	if mustErr && err == nil {
		x.FailSig("silent-end", "%s ended without an error", what)
	}
	for i := 0; i < 4; i++ {
		if step(it, i%2) {
			x.FailSig("resumed", "%s: advancing after the end delivered %s (error before: %v)", what, toRec(it.Record()), err)
			return
		}
		if err != nil && it.Err() == nil {
			x.FailSig("error-lost", "%s: the error %v is gone after advancing past the end", what, err)
			return
		}
	}
}

func readAllInto(x *ctl.X, it rangedb.RecordIterator, how int, got *[]Rec, each func(n int)) {
	for step(it, how) {
		r := it.Record()
		if r == nil {
			x.FailSig("nil-record", "Next was true without a record (Err %v)", it.Err())
			return
		}
		*got = append(*got, toRec(r))
		if len(*got) > 100 {
			x.FailSig("endless", "the iterator does not end")
			return
		}
		if each != nil {
			each(len(*got))
		}
	}
}

// cancelHarness: the reading context is cancelled at every point of a read.
func cancelHarness(kind string, open func(x *ctl.X, kind string, points bool) *Env) *explore.Harness {
	pauses := []time.Duration{0, 300 * time.Millisecond, 2 * time.Second}
	return &explore.Harness{Name: "cancel-" + kind,
		Doc: fmt.Sprintf("%d kinds of read of 7 events, both ways of advancing, the context cancelled by the reader, or its deadline passed, before opening, after opening or after each record, continuing after a pause of %v: a prefix is delivered and, when it is not everything, an error; the iterator stays stopped, the store stays usable and no goroutine stays behind", len(readsOf), pauses),
		Cfg: ctl.Config{Background: bgLevelDB},
		Body: func(x *ctl.X) {
			rk := readsOf[x.ChooseF(len(readsOf), 0, func(i int) string { return "read " + readsOf[i].name })]
			how := x.ChooseF(2, 0, func(i int) string { return []string{"Next", "NextContext"}[i] })
			deadline := x.ChooseF(2, 0, func(i int) string { return []string{"cancelled", "deadline"}[i] }) == 1
			at := x.ChooseF(9, 0, func(i int) string { return fmt.Sprint("cancel at ", i-1) }) - 1
			pause := pauses[x.ChooseF(len(pauses), 0, func(i int) string { return fmt.Sprint("pause ", pauses[i]) })]
			e := open(x, kind, false)
			defer e.Close()
			fillReads(x, e.St)
			all, _ := drain(e.St.Events(bgCtx, 0))
			want := filter(all, rk.want)
			x.Quiesce()
			base := len(e.goroutines())
			ctx, cancel, free := endable(deadline)
			defer free()
			if at < 0 {
				cancel()
			}
			it := rk.open(e.St, ctx)
			stop := func() {
				cancel()
				x.Quiesce()
				time.Sleep(pause)
			}
			if at == 0 {
				stop()
			}
			var got []Rec
			readAllInto(x, it, how, &got, func(n int) {
				if n == at {
					stop()
				}
			})
			what := fmt.Sprintf("read %s, context ended (deadline: %v) after %d records, pause %v", rk.name, deadline, at, pause)
			checkEnd(x, what, it, got, want, false)
			x.Observe("%s %d %s", rk.name, len(got), errKind(it.Err()))
			usable(x, e.St, what)
			time.Sleep(3 * time.Second)
			x.Quiesce()
			if gs := e.goroutines(); len(gs) != base {
				x.FailSig("leak", "%s: %d goroutines afterwards, %d before: %s", what, len(gs), base, x.Describe())
			}
		}}
}

// endable is a context and what ends it.
func endable(deadline bool) (ctx context.Context, end, free func()) {
	if !deadline {
		ctx, cancel := context.WithCancel(bgCtx)
		return ctx, cancel, cancel
	}
	ctx, cancel := context.WithTimeout(bgCtx, 10*time.Second)
	return ctx, func() {
		if ctx.Err() == nil {
			time.Sleep(11 * time.Second)
		}
	}, cancel
}

// lateContext ends by its deadline instead of being cancelled.
type lateContext struct{ context.Context }

func (c lateContext) Err() error {
	if c.Context.Err() != nil {
		return context.DeadlineExceeded
	}
	return nil
}

func usable(x *ctl.X, st rangedb.Store, what string) {
	x.Go("usable", func() {
		if _, err := st.Save(bgCtx, "zz!1", &rangedb.EventRecord{Event: &Ev{Typ: "zz", ID: "1", P: "z"}}); err != nil {
			x.FailSig("unusable", "save after %s: %v", what, err)
		}
	})
	if s := x.Quiesce(); len(s) > 0 {
		x.FailSig("unusable", "save after %s blocks: %s", what, x.Describe())
	}
}

// cancelRaceHarness: another thread cancels while the reader reads.
func cancelRaceHarness(kind string, stmt bool, open func(x *ctl.X, kind string, points bool) *Env, quick, thorough int) *explore.Harness {
	name := "cancel-race-" + kind
	if stmt {
		name = "cancel-race-stmt-" + kind
	}
	return &explore.Harness{Name: name, Quick: quick, Thorough: thorough,
		Doc: fmt.Sprintf("%d kinds of read of 7 events, both ways of advancing, cancelled by another thread at any moment: all interleavings and select orders up to the bound", len(readsOf)),
		Cfg: ctl.Config{Background: bgLevelDB, Stmt: stmt, BlockCost: 1, SelectCost: 1, Families: true},
		Body: func(x *ctl.X) {
			rk := readsOf[x.ChooseF(len(readsOf), 0, func(i int) string { return "read " + readsOf[i].name })]
			how := x.ChooseF(2, 0, func(i int) string { return []string{"Next", "NextContext"}[i] })
			at := x.ChooseF(4, 0, func(i int) string { return fmt.Sprint("canceller starts after ", i, " records") })
			e := open(x, kind, !stmt)
			defer e.Close()
			fillReads(x, e.St)
			all, _ := drain(e.St.Events(bgCtx, 0))
			want := filter(all, rk.want)
			x.Quiesce()
			base := len(e.goroutines())
			ctx, cancel := context.WithCancel(bgCtx)
			defer cancel()
			x.Explore(true)
			if at == 0 {
				x.Go("cancel", func() { cancel() })
			}
			var it rangedb.RecordIterator
			var got []Rec
			x.Go("reader", func() {
				it = rk.open(e.St, ctx)
				readAllInto(x, it, how, &got, func(n int) {
					if n == at {
						x.Go("cancel", func() { cancel() })
					}
				})
			})
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "threads %v never finish: %s", stuck, x.Describe())
				return
			}
			what := fmt.Sprintf("read %s cancelled concurrently", rk.name)
			checkEnd(x, what, it, got, want, false)
			x.Observe("%s %d %s", rk.name, len(got), errKind(it.Err()))
			usable(x, e.St, what)
			time.Sleep(3 * time.Second)
			x.Quiesce()
			if gs := e.goroutines(); len(gs) != base {
				x.FailSig("leak", "%s: %d goroutines afterwards, %d before: %s", what, len(gs), base, x.Describe())
			}
		}}
}

// abandonHarness: a reader stops reading and cancels its context.
func abandonHarness(kind string, quick, thorough int) *explore.Harness {
	return &explore.Harness{Name: "abandon-" + kind, Quick: quick, Thorough: thorough,
		Doc: fmt.Sprintf("%d kinds of read of 7 events of which none or any one cannot be decoded, abandoned after 0..7 records by a reader that cancels its context, before or after the producer got as far as it can: the store stays usable and no goroutine stays behind; all interleavings up to the bound", len(readsOf)),
		Cfg: ctl.Config{Background: bgLevelDB, BlockCost: 1, SelectCost: 1, Families: true},
		Body: func(x *ctl.X) {
			rk := readsOf[x.ChooseF(len(readsOf), 0, func(i int) string { return "read " + readsOf[i].name })]
			bad := x.ChooseF(8, 0, func(i int) string { return fmt.Sprint("record ", i, " damaged") })
			at := x.ChooseF(8, 0, func(i int) string { return fmt.Sprint("abandoned after ", i, " records") })
			early := x.ChooseF(2, 0, func(i int) string { return []string{"cancelled when settled", "cancelled at once"}[i] }) == 1
			e := openStore(x, kind, false)
			defer e.Close()
			fillReads(x, e.St)
			all, _ := drain(e.St.Events(bgCtx, 0))
			x.Quiesce()
			base := x.Goroutines()
			if bad > 0 {
				e.Ser.failDes = func(b []byte) error {
					if strings.Contains(string(b), `"`+payload(all[bad-1])) {
						return errUndecodable
					}
					return nil
				}
			}
			ctx, cancel := context.WithCancel(bgCtx)
			defer cancel()
			x.Explore(true)
			var got []Rec
			x.Go("reader", func() {
				it := rk.open(e.St, ctx)
				for len(got) < at && it.Next() {
					got = append(got, toRec(it.Record()))
				}
				if early {
					cancel()
				}
			})
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "threads %v never finish: %s", stuck, x.Describe())
				return
			}
			cancel()
			x.Quiesce()
			e.Ser.failDes = nil
			what := fmt.Sprintf("read %s (record %d damaged) abandoned after %d records", rk.name, bad, at)
			usable(x, e.St, what)
			time.Sleep(3 * time.Second)
			x.Quiesce()
			if l := newGoroutines(x, base); len(l) > 0 {
				x.FailSig("leak", "%s leaves goroutines behind: %v", what, l)
			}
			x.Observe("%s %d", what, len(got))
		}}
}

var errUndecodable = errors.New("undecodable record")

// damageHarness: one record cannot be decoded, or (LevelDB) is missing.
func damageHarness(kind string) *explore.Harness {
	return &explore.Harness{Name: "damage-" + kind,
		Doc: fmt.Sprintf("%d kinds of read of 7 events of which each one in turn cannot be decoded, or (LevelDB) was removed from under the lookups: the records before it are delivered, then an error", len(readsOf)),
		Cfg: ctl.Config{Background: bgLevelDB},
		Body: func(x *ctl.X) {
			rk := readsOf[x.ChooseF(len(readsOf), 0, func(i int) string { return "read " + readsOf[i].name })]
			how := x.ChooseF(2, 0, func(i int) string { return []string{"Next", "NextContext"}[i] })
			at := x.ChooseF(7, 0, func(i int) string { return fmt.Sprint("record ", i+1) })
			missing := strings.HasSuffix(kind, "ldb") && x.ChooseF(2, 0, func(i int) string { return []string{"undecodable", "missing"}[i] }) == 1
			e := openStore(x, kind, false)
			defer e.Close()
			fillReads(x, e.St)
			all, _ := drain(e.St.Events(bgCtx, 0))
			want := filter(all, rk.want)
			bad := all[at]
			if missing {
				if strings.HasPrefix(rk.name, "stream") {
					return // a removed record of a stream leaves nothing to notice it by
				}
				if err := e.stop(); err != nil {
					x.Fail("stop: %v", err)
				}
				db, err := leveldb.Open(&diskStorage{d: e.Disk}, nil)
				if err != nil {
					x.Fail("raw open: %v", err)
					return
				}
				it := db.NewIterator(nil, nil)
				n := 0
				for it.Next() {
					if strings.HasPrefix(string(it.Key()), "$s$") && (strings.Contains(string(it.Value()), `"`+payload(bad)+`"`) || strings.Contains(string(it.Value()), `"`+payload(bad)+evCipher+`"`)) {
						_ = db.Delete(it.Key(), nil)
						n++
					}
				}
				it.Release()
				if n != 1 {
					x.Fail("setup: %d stored copies of %s", n, bad)
				}
				_ = db.Close()
				if err := e.openLDB(); err != nil {
					x.Fail("reopen: %v", err)
					return
				}
			} else {
				e.Ser.failDes = func(b []byte) error {
					if strings.Contains(string(b), `"`+payload(bad)+`"`) || strings.Contains(string(b), `"`+payload(bad)+evCipher+`"`) {
						return errUndecodable
					}
					return nil
				}
			}
			it := rk.open(e.St, bgCtx)
			var got []Rec
			readAllInto(x, it, how, &got, nil)
			hit := false
			for i, r := range want {
				if r == bad {
					hit, want = true, want[:i]
					break
				}
			}
			what := fmt.Sprintf("read %s with record %d damaged (missing %v)", rk.name, at+1, missing)
			if !isPrefix(got, want) {
				x.FailSig("wrong-records", "%s delivered %s, want a prefix of %s", what, shortRecs(got), shortRecs(want))
			}
			checkEnd(x, what, it, got, want, hit)
			x.Observe("%s %d %v %d %v", rk.name, at, missing, len(got), it.Err())
			e.Ser.failDes = nil
			usable(x, e.St, what)
		}}
}

// iteratorHarness checks the record iterator itself against scripted producers.
func iteratorHarness(quick, thorough int) *explore.Harness {
	ends := []string{"close", "error, close", "error", "error, more records", "context cancelled, close"}
	return &explore.Harness{Name: "iterator", Quick: quick, Thorough: thorough,
		Doc: fmt.Sprintf("a record iterator over a producer of 0..3 records ending in %q, buffered or not, every mix of Next and NextContext with a live context or one cancelled (or past its deadline) at any call or by another thread; all interleavings up to the bound", ends),
		Cfg: ctl.Config{BlockCost: 1, SelectCost: 1, Families: true},
		Body: func(x *ctl.X) {
			n := x.ChooseF(4, 0, func(i int) string { return fmt.Sprint(i, " records") })
			end := x.ChooseF(len(ends), 0, func(i int) string { return ends[i] })
			buf := 5 * x.ChooseF(2, 0, func(i int) string { return fmt.Sprint("buffer ", 5*i) })
			mode := x.ChooseF(4, 0, func(i int) string {
				return []string{"Next", "NextContext", "alternating", "NextContext, context ended by another thread"}[i]
			})
			late := (mode == 3 || end == 4) && x.ChooseF(2, 0, func(i int) string { return []string{"contexts cancelled", "contexts past their deadline"}[i] }) == 1
			ch := make(chan rangedb.ResultRecord, buf)
			pctx, pcancel := context.WithCancel(bgCtx)
			defer pcancel()
			rctx, rcancel := context.WithCancel(bgCtx)
			defer rcancel()
			ended := context.Canceled
			if late {
				pctx, rctx, ended = lateContext{pctx}, lateContext{rctx}, context.DeadlineExceeded
			}
			sentinel := errors.New("sentinel")
			x.Explore(true)
			x.Go("producer", func() {
				for i := 1; i <= n; i++ {
					select {
					case ch <- rangedb.ResultRecord{Record: &rangedb.Record{GlobalSequenceNumber: uint64(i)}}:
					case <-rctx.Done():
						return
					}
				}
				if end == 4 {
					pcancel()
				}
				if end >= 1 && end <= 3 {
					select {
					case ch <- rangedb.ResultRecord{Err: sentinel}:
					case <-rctx.Done():
						return
					}
				}
				if end == 3 {
					select {
					case ch <- rangedb.ResultRecord{Record: &rangedb.Record{GlobalSequenceNumber: 99}}:
					case <-time.After(time.Minute):
					case <-rctx.Done():
						return
					}
				}
				if end == 0 || end == 1 || end == 4 {
					close(ch)
				}
			})
			var it rangedb.RecordIterator = rangedb.NewRecordIteratorWithContext(pctx, ch)
			if end != 4 {
				it = rangedb.NewRecordIterator(ch)
			}
			if mode == 3 {
				x.Go("cancel", rcancel)
			}
			var got []Rec
			calls := 0
			x.Go("reader", func() {
				for {
					var ok bool
					if mode == 0 || mode == 2 && calls%2 == 0 {
						ok = it.Next()
					} else {
						ok = it.NextContext(rctx)
					}
					calls++
					if !ok {
						return
					}
					r := it.Record()
					if r == nil || it.Err() != nil {
						x.FailSig("nil-record", "Next was true with record %v and error %v", r, it.Err())
						return
					}
					got = append(got, toRec(r))
				}
			})
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 && !(len(stuck) == 1 && stuck[0] == "producer") {
				x.FailSig("stuck", "%v never finish: %s", stuck, x.Describe())
				return
			}
			var want []Rec
			for i := 1; i <= n; i++ {
				want = append(want, toRec(&rangedb.Record{GlobalSequenceNumber: uint64(i)}))
			}
			err := it.Err()
			what := fmt.Sprintf("%d records, %s, mode %d", n, ends[end], mode)
			if !isPrefix(got, want) {
				x.FailSig("wrong-records", "%s: delivered %s", what, shortRecs(got))
			}
			if len(got) < n && err == nil {
				x.FailSig("silent-end", "%s: ended after %d records without an error", what, len(got))
			}
			if end >= 1 && end <= 3 && !(errors.Is(err, sentinel) || mode == 3 && errors.Is(err, ended)) {
				x.FailSig("silent-end", "%s: error is %v", what, err)
			}
			if end == 4 && err == nil {
				x.FailSig("silent-end", "%s: no error", what)
			}
			if end == 0 && mode != 3 && err != nil {
				x.FailSig("spurious", "%s: error %v", what, err)
			}
			x.Observe("%s %d %v", what, len(got), err)
			if err == nil && end != 0 {
				return
			}
			for i := 0; i < 4; i++ {
				ok := false
				if i%2 == 0 {
					ok = it.Next()
				} else {
					ok = it.NextContext(bgCtx)
				}
				if ok || err != nil && it.Err() == nil {
					x.FailSig("resumed", "%s: after the end (%v): Next %v, Err %v", what, err, ok, it.Err())
					return
				}
			}
		}}
}

// scripted is an iterator over fixed records ending in an error or not.
func scripted(recs []uint64, err error, speed int) (rangedb.RecordIterator, *bool) {
	done := new(bool)
	ch := make(chan rangedb.ResultRecord, speed)
	go func() {
		defer func() { close(ch); *done = true }()
		for _, g := range recs {
			ch <- rangedb.ResultRecord{Record: &rangedb.Record{GlobalSequenceNumber: g, EventID: fmt.Sprint("e", g)}}
		}
		if err != nil {
			ch <- rangedb.ResultRecord{Err: err}
		}
	}()
	return rangedb.NewRecordIterator(ch), done
}

// mergeHarness enumerates every distribution of the numbers 1..n over k inputs.
func mergeHarness(name string, k, n int, sched bool, quick, thorough int) *explore.Harness {
	return &explore.Harness{Name: name, Quick: quick, Thorough: thorough,
		Doc: fmt.Sprintf("every distribution of the numbers 1..%d over %d inputs or none of them, no input or any one of them ending in an error, producers buffered or not (explored schedules: %v): every record once in order, or a prefix and the error; all producers finish", n, k, sched),
		Cfg: ctl.Config{BlockCost: 1, SelectCost: 1, Families: true},
		Body: func(x *ctl.X) {
			ins := make([][]uint64, k)
			var all []uint64
			var d []string
			for g := 1; g <= n; g++ {
				i := x.ChooseF(k+1, 0, func(i int) string { return fmt.Sprint("number ", g, " in input ", i) })
				d = append(d, fmt.Sprint(i))
				if i < k {
					ins[i] = append(ins[i], uint64(g))
					all = append(all, uint64(g))
				}
			}
			bad := x.ChooseF(k+1, 0, func(i int) string { return fmt.Sprint("error at the end of input ", i-1) }) - 1
			buf := x.ChooseF(2, 0, func(i int) string { return fmt.Sprint("buffers ", i*n) }) * n
			what := fmt.Sprintf("merge of %v, input %d failing", ins, bad)
			errIn := errors.New("input failed")
			x.Explore(sched)
			var its []rangedb.RecordIterator
			var dones []*bool
			for i := range ins {
				var err error
				if i == bad {
					err = errIn
				}
				it, done := scripted(ins[i], err, buf)
				its = append(its, it)
				dones = append(dones, done)
			}
			it := rangedb.MergeRecordIteratorsInOrder(its)
			var got []uint64
			x.Go("reader", func() {
				for it.Next() {
					r := it.Record()
					if r.EventID != fmt.Sprint("e", r.GlobalSequenceNumber) {
						x.FailSig("mixed", "%s: record %v", what, r)
					}
					got = append(got, r.GlobalSequenceNumber)
					if len(got) > 2*n {
						break
					}
				}
			})
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "%s: the reader never finishes: %s", what, x.Describe())
				return
			}
			ok := len(got) <= len(all)
			for i := range got {
				ok = ok && got[i] == all[i]
			}
			if !ok {
				x.FailSig("order", "%s delivered %v, want %v", what, got, all)
			}
			if bad < 0 {
				if len(got) != len(all) || it.Err() != nil {
					x.FailSig("incomplete", "%s delivered %v of %v, error %v", what, got, all, it.Err())
				}
			} else if !errors.Is(it.Err(), errIn) {
				x.FailSig("silent-end", "%s delivered %v, error %v", what, got, it.Err())
			}
			if it.Next() {
				x.FailSig("resumed", "%s: Next is true after the end", what)
			}
			for i, d := range dones {
				if !*d {
					x.FailSig("leak", "%s: the producer of input %d is left blocked", what, i)
				}
			}
			x.Observe("%s %d %v", strings.Join(d, ""), len(got), it.Err())
		}}
}

// mergeCancelHarness: the context of a merged read ends while it is read, or after it was abandoned.
func mergeCancelHarness(name string, stmt bool, quick, thorough int) *explore.Harness {
	const k, n = 2, 4
	ways := []string{"cancelled, read on", "cancelled, abandoned", "abandoned, then cancelled", "cancelled by another thread"}
	return &explore.Harness{Name: name, Quick: quick, Thorough: thorough,
		Doc: fmt.Sprintf("every distribution of the numbers 1..%d over %d inputs, the last of them ending in an error or not, buffered or not, the context %v after each number of records: what is delivered is a prefix in order, a reader that reads on gets an error unless it has everything, and all producers finish and no goroutine stays behind; all interleavings up to the bound", n, k, ways),
		Cfg: ctl.Config{BlockCost: 1, SelectCost: 1, Families: true, Stmt: stmt},
		Body: func(x *ctl.X) {
			ins := make([][]uint64, k)
			var d string
			for g := 1; g <= n; g++ {
				i := x.ChooseF(k, 0, func(i int) string { return fmt.Sprint("number ", g, " in input ", i) })
				d += fmt.Sprint(i)
				ins[i] = append(ins[i], uint64(g))
			}
			var bad error
			if x.ChooseF(2, 0, func(i int) string { return fmt.Sprint("error at the end of the last input: ", i) }) == 1 {
				bad = errors.New("input failed")
			}
			buf := x.ChooseF(2, 0, func(i int) string { return fmt.Sprint("buffers ", i*n) }) * n
			way := x.ChooseF(len(ways), 0, func(i int) string { return ways[i] })
			at := x.ChooseF(n+2, 0, func(i int) string { return fmt.Sprint("after ", i, " records") })
			what := fmt.Sprintf("merge of %v (error %v), %s after %d records", ins, bad, ways[way], at)
			base := x.Goroutines()
			ctx, cancel := context.WithCancel(bgCtx)
			defer cancel()
			x.Explore(true)
			var its []rangedb.RecordIterator
			var dones []*bool
			for i := range ins {
				var err error
				if i == k-1 {
					err = bad
				}
				it, done := scripted(ins[i], err, buf)
				its = append(its, it)
				dones = append(dones, done)
			}
			it := rangedb.MergeRecordIteratorsInOrderWithContext(ctx, its)
			var got []uint64
			ended := false
			x.Go("reader", func() {
				for {
					if len(got) == at {
						switch way {
						case 0:
							cancel()
						case 1:
							cancel()
							return
						case 2:
							return
						case 3:
							x.Go("cancel", cancel)
						}
					}
					if len(got) > n || !it.Next() {
						ended = true
						return
					}
					got = append(got, it.Record().GlobalSequenceNumber)
				}
			})
			stuck := x.Quiesce()
			cancel()
			x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "%s: the reader never finishes: %s", what, x.Describe())
				return
			}
			for i, g := range got {
				if g != uint64(i+1) {
					x.FailSig("order", "%s delivered %v", what, got)
				}
			}
			if ended && (len(got) < n || bad != nil) && it.Err() == nil {
				x.FailSig("silent-end", "%s delivered %v and no error", what, got)
			}
			if it.Next() && ended {
				x.FailSig("resumed", "%s: Next is true after the end", what)
			}
			x.Quiesce()
			for i, d := range dones {
				if !*d {
					x.FailSig("leak", "%s: the producer of input %d is left blocked", what, i)
				}
			}
			if gs := newGoroutines(x, base); len(gs) > 0 {
				x.FailSig("leak", "%s leaves goroutines behind: %v", what, gs)
			}
			x.Observe("%s %d %d %v", d, way, len(got), it.Err())
		}}
}

func plainOpen(x *ctl.X, kind string, points bool) *Env { return openStore(x, kind, points) }

func init() {
	p := &explore.Property{ID: "C09", Level: "model_checking",
		Rule:        "one execution per case (store, kind of read, way of advancing, place and cause of the early end) and schedule; an execution is distinct when the read, the number of delivered records or the error differ; all are non-trivial",
		Assumptions: concAssume}
	for _, k := range readKinds {
		p.Harnesses = append(p.Harnesses, cancelHarness(k, plainOpen), damageHarness(k))
	}
	for _, k := range []string{"enc-mem", "enc-ldb"} {
		p.Harnesses = append(p.Harnesses, cancelHarness(k, plainOpen), damageHarness(k))
	}
	p.Harnesses = append(p.Harnesses, abandonHarness("mem", 1, 2), abandonHarness("ldb", 0, 1), abandonHarness("enc-mem", 0, 1), encDamageHarness(), cancelRaceHarness("enc-mem", false, plainOpen, 1, 2), cancelRaceHarness("mem", false, plainOpen, 2, 3), cancelRaceHarness("ldb", false, plainOpen, 1, 2), cancelRaceHarness("mem", true, plainOpen, 1, 1), iteratorHarness(2, 4))
	explore.Register(p)
	explore.Register(&explore.Property{ID: "C15", Level: "model_checking",
		Rule:        "one execution per distribution of numbers over inputs, failing input, buffering and schedule; distinct when the distribution or the result differs",
		Assumptions: []string{"inputs are ordered by global sequence number, as the property demands"},
		Harnesses: []*explore.Harness{
			mergeHarness("merge-3x6", 3, 6, false, 0, 0), mergeHarness("merge-4x5", 4, 5, false, 0, 0), mergeHarness("merge-2x9", 2, 9, false, 0, 0),
			mergeHarness("merge-sched-2x3", 2, 3, true, 1, 3), mergeHarness("merge-sched-3x3", 3, 3, true, 1, 2),
			mergeCancelHarness("merge-cancel", false, 1, 2), mergeCancelHarness("merge-cancel-stmt", true, 0, 1)}})
}
