package h

import (
	"context"
	"errors"
	"fmt"
	"math"
	"net"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/test/bufconn"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbserver"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"github.com/inklabs/rangedb/provider/remotestore"

	"verifmc/ctl"
	"verifmc/explore"
)

var bgGRPC = []string{"github.com/syndtr/goleveldb/", "google.golang.org/grpc/", "google.golang.org/grpc.(*addrConn)", "google.golang.org/grpc.(*cc", "google.golang.org/grpc.(*ClientConn)",
	"google.golang.org/grpc.new", "google.golang.org/grpc.Dial", "google.golang.org/grpc.(*Server).Serve", "google.golang.org/grpc.(*Server).handleRawConn", "google.golang.org/grpc.(*acBalancerWrapper)", "golang.org/x/net/", "net."}

// dialServer serves st over an in-process connection and returns a client connection.
func dialServer(x *ctl.X, st rangedb.Store) (conn *grpc.ClientConn, stop func(), ok bool) {
	lis := bufconn.Listen(1 << 16)
	srv := grpc.NewServer()
	rs, err := rangedbserver.New(rangedbserver.WithStore(st))
	if err != nil {
		x.Fail("grpc server: %v", err)
		return nil, nil, false
	}
	rangedbpb.RegisterRangeDBServer(srv, rs)
	go func() { _ = srv.Serve(lis) }()
	conn, err = grpc.Dial("bufnet", grpc.WithInsecure(), grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return lis.Dial() }))
	if err != nil {
		x.Fail("grpc dial: %v", err)
		return nil, nil, false
	}
	return conn, func() {
		_ = conn.Close()
		srv.Stop()
		_ = rs.Stop()
		_ = lis.Close()
	}, true
}

// serveRemote puts a gRPC server and a client in front of the store.
func (e *Env) serveRemote() {
	x := e.X
	e.Direct = e.St
	conn, stop, ok := dialServer(x, e.Direct)
	if !ok {
		return
	}
	r, err := remotestore.New(conn)
	if err != nil {
		x.Fail("remote store: %v", err)
		return
	}
	r.Bind(&Ev{})
	e.St = r
	under := e.stop
	e.stop = func() error {
		stop()
		x.Quiesce()
		if under != nil {
			return under()
		}
		return nil
	}
}

// remoteCfg lets gRPC's own goroutines run first, without alternatives, except
// those that run the server's handlers.
func remoteCfg() ctl.Config {
	return ctl.Config{Background: bgGRPC, BlockCost: 1, SelectCost: 1, Families: true, MaxTimers: 400}
}

var getKinds = []string{"Events", "EventsByAggregateTypes", "EventsByStream"}

func readBy(st rangedb.Store, ctx context.Context, kind int, from uint64) rangedb.RecordIterator {
	switch kind {
	case 0:
		return st.Events(ctx, from)
	case 1:
		return st.EventsByAggregateTypes(ctx, from, "ta")
	}
	return st.EventsByStream(ctx, from, "ta!1")
}

// faultyStore answers with scripted failures.
type faultyStore struct {
	rangedb.Store
	recs []*rangedb.Record
	err  error
	once bool // saves and deletes only fail the first time
	seen int
}

// over says that the failure has passed.
func (f *faultyStore) over() bool {
	f.seen++
	return f.once && f.seen > 1
}

func (f *faultyStore) it() rangedb.RecordIterator { return chanIter(f.recs, f.err) }

func (f *faultyStore) Events(context.Context, uint64) rangedb.RecordIterator { return f.it() }
func (f *faultyStore) EventsByAggregateTypes(context.Context, uint64, ...string) rangedb.RecordIterator {
	return f.it()
}
func (f *faultyStore) EventsByStream(context.Context, uint64, string) rangedb.RecordIterator {
	return f.it()
}
func (f *faultyStore) Save(ctx context.Context, s string, e ...*rangedb.EventRecord) (uint64, error) {
	if f.over() {
		return f.Store.Save(ctx, s, e...)
	}
	return 0, f.err
}
func (f *faultyStore) OptimisticSave(ctx context.Context, n uint64, s string, e ...*rangedb.EventRecord) (uint64, error) {
	if f.over() {
		return f.Store.OptimisticSave(ctx, n, s, e...)
	}
	return 0, f.err
}
func (f *faultyStore) OptimisticDeleteStream(ctx context.Context, n uint64, s string) error {
	if f.over() {
		return f.Store.OptimisticDeleteStream(ctx, n, s)
	}
	return f.err
}
func (f *faultyStore) TotalEventsInStream(context.Context, string) (uint64, error)  { return 0, f.err }

// remoteFaultHarness: the store behind the server fails in every way at every position.
func remoteFaultHarness() *explore.Harness {
	errs := []error{errRead, context.Canceled, context.DeadlineExceeded, rangedb.ErrStreamNotFound,
		&rangedberror.UnexpectedSequenceNumber{Expected: 3, ActualSequenceNumber: math.MaxUint64}, &rangedberror.UnexpectedSequenceNumber{}, errors.New("EOF"), errors.New("")}
	return &explore.Harness{Name: "faults", ExecsPerGC: 200, Cfg: remoteCfg(),
		Doc: "the store behind the server fails with each of 8 errors (saves and deletes: always, or only when first called): reads of the three kinds after every number of records up to 3 (also with a record that cannot be encoded there), saves, deletes and counts; the client sees the records before the failure, then an error, of the same kind where the operation has kinds",
		Body: func(x *ctl.X) {
			op := x.ChooseF(7, 0, func(i int) string {
				return append(append([]string(nil), getKinds...), "Save", "OptimisticSave", "OptimisticDeleteStream", "TotalEventsInStream")[i]
			})
			ei := x.ChooseF(len(errs)+1, 0, func(i int) string {
				if i == len(errs) {
					return "a record that cannot be encoded"
				}
				return fmt.Sprintf("error %q", errs[i])
			})
			n := 0
			if op < 3 {
				n = x.ChooseF(4, 0, func(i int) string { return fmt.Sprint("after ", i, " records") })
			}
			e := openStore(x, "mem", false)
			if _, err := e.St.Save(bgCtx, "ta!1", &rangedb.EventRecord{Event: &Ev{Typ: "ta", ID: "1"}}); err != nil {
				x.FailSig("save", "%v", err)
			}
			f := &faultyStore{Store: e.St, once: op >= 3 && x.Choose(2, 0, "the failure lasts") == 1}
			under := f.Store
			stored := allReads(under, []string{"ta!1"}, []string{"ta"}, showRecs)
			var want []Rec
			for i := 0; i < n; i++ {
				r := *streamRecs()[0]
				r.GlobalSequenceNumber = uint64(i + 1)
				f.recs = append(f.recs, &r)
				want = append(want, toRec(&r))
			}
			unenc := ei == len(errs)
			if unenc {
				f.recs = append(f.recs, &rangedb.Record{Data: &badEv{}})
			} else {
				f.err = errs[ei]
			}
			e.St = f
			e.serveRemote()
			if x.Failed() {
				return
			}
			defer e.Close()
			kind := errKind
			var got error
			switch op {
			case 0, 1, 2:
				var recs []Rec
				recs, got = drain(readBy(e.St, bgCtx, op, 0))
				if !recsEqual(recs, want) {
					x.FailSig("records", "%s whose read fails after %d records yields %s, want %s", getKinds[op], n, showRecs(recs), showRecs(want))
				}
			case 3:
				_, got = e.St.Save(bgCtx, "ta!1", &rangedb.EventRecord{Event: &Ev{Typ: "ta", ID: "1"}})
			case 4:
				_, got = e.St.OptimisticSave(bgCtx, 1, "ta!1", &rangedb.EventRecord{Event: &Ev{Typ: "ta", ID: "1"}})
			case 5:
				got = e.St.OptimisticDeleteStream(bgCtx, 1, "ta!1")
			case 6:
				_, got = e.St.TotalEventsInStream(bgCtx, "ta!1")
			}
			x.Observe("%d %d %d %s", op, ei, n, kind(got))
			if unenc {
				if op < 3 && got == nil {
					x.FailSig("silent", "%s with a record that cannot be encoded ends without an error", getKinds[op])
				}
				return
			}
			if after := allReads(under, []string{"ta!1"}, []string{"ta"}, showRecs); after != stored {
				x.FailSig("effect", "operation %d, refused by the store with %q, yields %v and changes the store from\n%sto\n%s", op, f.err, got, stored, after)
			}
			if got == nil {
				x.FailSig("silent", "operation %d: the failure %q is not reported", op, f.err)
				return
			}
			var u *rangedberror.UnexpectedSequenceNumber
			due := errors.As(f.err, &u) && (op == 4 || op == 5) || f.err == rangedb.ErrStreamNotFound && (op == 2 || op == 5)
			if due && kind(got) != kind(f.err) {
				x.FailSig("kind", "operation %d: the store's failure %q (%s) arrives as %q (%s)", op, f.err, kind(f.err), got, kind(got))
			}
		}}
}

// remoteValuesHarness: event and metadata values through the remote store.
func remoteValuesHarness() *explore.Harness {
	ints := map[string]interface{}{"n": uint64(math.MaxUint64), "m": int64(math.MinInt64), "f": 0.1, "i": 1<<53 + 1}
	return &explore.Harness{Name: "values", ExecsPerGC: 100, Cfg: remoteCfg(),
		Doc: "events of every kind of value (3 wide events, 9 generic payloads) with 7 kinds of metadata, saved with both saves through the remote store and directly: read by a bound and an unbound client, by each kind of read, and directly, all equal to what was saved; over the in-memory store and LevelDB with both serializers",
		Body: func(x *ctl.X) {
			embedded := []string{"mem", "ldb", "ldb-mp"}
			kind := embedded[x.ChooseF(3, 0, func(i int) string { return embedded[i] + " store" })]
			var evs []rangedb.Event
			evs = append(evs, boundData()...)
			for i, g := range append(genericData(), ints) {
				if g != nil {
					evs = append(evs, rangedb.NewRawEvent("wide", fmt.Sprint("g", i), "Unknown", g))
				}
			}
			ei := x.ChooseF(len(evs), 0, func(i int) string { return fmt.Sprintf("event %.100s", js(evs[i])) })
			ms := append(metas(), ints)
			mi := x.ChooseF(len(ms), 0, func(i int) string { return "metadata " + js(ms[i]) })
			via := x.ChooseF(3, 0, func(i int) string { return []string{"Save", "OptimisticSave", "saved directly"}[i] })
			e := openStore(x, kind, false)
			e.serveRemote()
			if x.Failed() {
				return
			}
			defer e.Close()
			er := &rangedb.EventRecord{Event: evs[ei], Metadata: ms[mi]}
			var err error
			switch via {
			case 0:
				_, err = e.St.Save(bgCtx, "w!1", er)
			case 1:
				_, err = e.St.OptimisticSave(bgCtx, 0, "w!1", er)
			case 2:
				_, err = e.Direct.Save(bgCtx, "w!1", er)
			}
			if err != nil {
				x.FailSig("save", "saving %s fails: %v", js(evs[ei]), err)
				return
			}
			want := &rangedb.Record{StreamName: "w!1", AggregateType: "wide", AggregateID: evs[ei].AggregateID(), GlobalSequenceNumber: 1, StreamSequenceNumber: 1,
				EventType: evs[ei].EventType(), Data: evs[ei], Metadata: ms[mi]}
			look := func(what string, st rangedb.Store, bound bool) {
				ctx, cancel := context.WithCancel(bgCtx)
				defer x.Quiesce()
				defer cancel()
				for k, it := range []rangedb.RecordIterator{st.Events(ctx, 0), st.EventsByAggregateTypes(ctx, 0, "wide"), st.EventsByStream(ctx, 0, "w!1")} {
					if !it.Next() {
						x.FailSig("read", "%s: %s yields nothing: %v", what, getKinds[k], it.Err())
						return
					}
					r := it.Record()
					w := *want
					w.InsertTimestamp, w.EventID = 1600000001, "u1"
					if d := recDiff(&w, r, bound && evs[ei].EventType() == "WideEv"); d != "" && !(kind == "ldb-mp" && via == 2 && numbersAsStrings(&w, r, false)) { // (see C16)
						x.FailSig("altered", "%s: %s: %s", what, getKinds[k], d)
						return
					}
					if it.Next() || it.Err() != nil {
						x.FailSig("read", "%s: %s: more records or error %v", what, getKinds[k], it.Err())
					}
				}
			}
			look("unbound client", e.St, false)
			look("directly, unbound", e.Direct, false)
			e.St.Bind(&wideEv{})
			look("bound client", e.St, true)
			if kind != "ldb-mp" { // the store has the data as sent, in JSON
				e.Direct.Bind(&wideEv{})
				look("directly, bound", e.Direct, true)
			}
			x.Observe("%d %d %d", ei, mi, via)
		}}
}

// remoteCancelHarness: the client gives up or is slow in the middle of a read.
func remoteCancelHarness() *explore.Harness {
	return &explore.Harness{Name: "cancelled-reads", ExecsPerGC: 100, Cfg: remoteCfg(), Quick: 1, Thorough: 2,
		Doc: "a client cancels the context of a read, or lets its deadline pass (three kinds, on 3 records) before it, or after consuming 0..3 records, possibly pausing for 5 seconds before going on; it then sees only the leading records and, unless it saw all, an error; all interleavings up to the bound",
		Body: func(x *ctl.X) {
			kind := "remote-" + embedded[x.ChooseF(2, 0, func(i int) string { return embedded[i] + " store" })]
			op := x.ChooseF(3, 0, func(i int) string { return getKinds[i] })
			after := x.ChooseF(6, 0, func(i int) string {
				if i == 5 {
					return "never cancelled"
				}
				return fmt.Sprint("cancel after consuming ", i-1, " records (-1: before the call)")
			}) - 1
			pause := x.ChooseF(2, 0, func(i int) string { return []string{"no pause", "pause"}[i] }) == 1
			deadline := after < 4 && x.ChooseF(2, 0, func(i int) string { return []string{"cancelled", "deadline"}[i] }) == 1
			e := openStore(x, kind, false)
			if x.Failed() {
				return
			}
			defer e.Close()
			h := newHist(x, e.Direct)
			h.saveN("i", "ta!1", 3)
			all, _ := drain(e.Direct.Events(bgCtx, 0))
			ctx, cancel, free := endable(deadline)
			defer free()
			var got []Rec
			var err error
			x.Explore(true)
			x.Go("reader", func() {
				if after < 0 {
					cancel()
				}
				it := readBy(e.St, ctx, op, 0)
				step := func() {
					if len(got) == after {
						cancel()
					}
					if pause {
						time.Sleep(5 * time.Second)
					}
				}
				step()
				for it.Next() {
					got = append(got, toRec(it.Record()))
					step()
				}
				err = it.Err()
			})
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "the reader never finishes: %s", x.Describe())
				return
			}
			if !isPrefix(got, all) {
				x.FailSig("records", "got %s of %s", shortRecs(got), shortRecs(all))
			}
			if len(got) < len(all) && err == nil {
				x.FailSig("silent", "%s, context ended (deadline: %v) after %d records, ends after %d of %d records without an error", getKinds[op], deadline, after, len(got), len(all))
			}
			if after == 4 && (err != nil || len(got) != len(all)) {
				x.FailSig("fails", "%s not cancelled: %d records, error %v", getKinds[op], len(got), err)
			}
			if err != nil && errKind(err) != "canceled" && !deadline {
				x.FailSig("kind", "%s cancelled after %d records: error %v", getKinds[op], after, err)
			}
			x.Observe("%d %d %v %v %d %s", op, after, deadline, pause, len(got), errKind(err))
		}}
}

// wrapperOps is the alphabet for stores that pass operations on.
func wrapperOps() []seqOp {
	return append(saveOps("ta!1", "ta", "1"), seqOp{"osave-1 ta!1", func(s *seq) { s.save("ta!1", saveOpt{exp: "-1"}, s.ev("ta", "1", "a")) }},
		seqOp{"save notype,othertype", func(s *seq) { s.save("ta!1", saveOpt{}, s.ev("", "1", "a"), s.ev("ta", "1", "b")) }},
		seqOp{"osave noid,otherid", func(s *seq) {
			s.save("ta!1", saveOpt{exp: "c"}, s.ev("ta", "", "a"), s.ev("ta", "1", "b"))
		}},
		save1("ta!2", "ta", "2"), saveN(2, "tb!1", "tb", "1"), save1("odd", "ta", "1"),
		del("ta!1", "c"), del("ta!1", "+1"), del("ta!1", "max"), del("never", "0"),
		seqOp{"del cancelled", func(s *seq) { s.del("ta!1", "c", -1) }})
}

func init() {
	ops := wrapperOps()
	all := func(s *seq) { s.subscribe("all", 0); s.subscribe("ta", 0, "ta") }
	hs := seqSpec{name: "remote", kinds: []string{"remote-mem", "remote-ldb"}, names: []string{"ta!1", "ta!2", "tb!1", "odd", "never"}, types: []string{"ta", "tb", "other"},
		doc: "through a gRPC client and server in one process, with subscriptions at the client", setup: all, ops: ops, quick: 3, thorough: 4, fullLast: true}.harnesses()
	for _, h := range hs {
		h.Cfg.Background = bgGRPC
	}
	remotely := func(h *explore.Harness) *explore.Harness {
		h.Cfg.Background = bgGRPC
		h.Cfg.MaxTimers = 400
		h.ExecsPerGC = 100
		return h
	}
	hs = append(hs, remoteFaultHarness(), remoteValuesHarness(), remoteCancelHarness(),
		remotely(fromHarness("remote-mem", false, 0, 1)), remotely(fromFewHarness("remote-mem", 1, 2)),
		remotely(concHarness("pairs", "remote-mem", concAlphabet, 2, false, 1, 2, false)),
		remotely(concHarness("optimistic", "remote-mem", optAlphabet, 2, false, 1, 2, false)),
		remotely(dropHarness("remote-mem", 0, 1)), remotely(stopHarness("remote-mem", false, 1, 2)), remotely(liveSubHarness("remote-mem", false, 0, 1)))
	explore.Register(&explore.Property{ID: "C17", Level: "model_checking", Rule: seqRule, Assumptions: append([]string{"google.golang.org/grpc over an in-process connection behaves like gRPC over a network that does not fail"}, seqAssume...),
		Harnesses: hs})
}
