package h

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/postgresstore"

	"verifmc/ctl"
	"verifmc/explore"
)

var pgConfig = &postgresstore.Config{Host: "pg", Port: 5432, User: "u", Password: "p", DBName: "d"}

// failEvents makes events with the payload FAIL unserializable as JSON.
type failEvents struct{ rangedb.Store }

type failEvent struct{ *Ev }

func (failEvent) MarshalJSON() ([]byte, error) { return nil, errSerialize }

func withFails(ers []*rangedb.EventRecord) []*rangedb.EventRecord {
	for i, er := range ers {
		if e, ok := er.Event.(*Ev); ok && strings.HasPrefix(e.P, "FAIL") {
			ers = append([]*rangedb.EventRecord(nil), ers...)
			ers[i] = &rangedb.EventRecord{Event: failEvent{e}, Metadata: er.Metadata}
		}
	}
	return ers
}

func (f failEvents) Save(ctx context.Context, stream string, ers ...*rangedb.EventRecord) (uint64, error) {
	return f.Store.Save(ctx, stream, withFails(ers)...)
}

func (f failEvents) OptimisticSave(ctx context.Context, n uint64, stream string, ers ...*rangedb.EventRecord) (uint64, error) {
	return f.Store.OptimisticSave(ctx, n, stream, withFails(ers)...)
}

// openPg opens a store on the environment's server.
func (e *Env) openPg() error {
	opts := []postgresstore.Option{postgresstore.WithClock(e.clk), postgresstore.WithUUIDGenerator(e.uid)}
	if e.Kind == "pg-notify" {
		opts = append(opts, postgresstore.WithPgNotify())
	}
	s, err := postgresstore.New(pgConfig, opts...)
	if err != nil {
		return err
	}
	if err := s.InitDB(); err != nil {
		return err
	}
	s.Bind(&Ev{})
	e.St = failEvents{s}
	e.stop = func() error {
		err := s.CloseDB()
		if e.keep {
			return err
		}
		e.X.Quiesce()
		e.Pg.close()
		return err
	}
	return nil
}

func pgCfg(h *explore.Harness) *explore.Harness {
	h.Cfg.Background = bgPg
	h.Cfg.Sticky = true
	h.Cfg.MaxTimers = 400
	h.ExecsPerGC = 200
	return h
}

// goroutines lists those that belong to the store: the sessions of the
// database server are not its own.
func (e *Env) goroutines() (l []ctl.Goroutine) {
	for _, g := range e.X.Goroutines() {
		if e.Pg == nil || !strings.Contains(g.Created, "(h.(*pgServer)") {
			l = append(l, g)
		}
	}
	return l
}

// connGoroutines leaves out those of broadcasters, which live on.
func (e *Env) connGoroutines() (l []ctl.Goroutine) {
	for _, g := range e.goroutines() {
		if !strings.Contains(g.Created, "(broadcast.New)") {
			l = append(l, g)
		}
	}
	return l
}

// checkOpen reports transactions that nothing will end.
func (e *Env) checkOpen() {
	e.X.Quiesce()
	for _, s := range e.Pg.db.sess {
		if s.tx != nil && !e.X.Failed() {
			e.X.FailSig("open-transaction", "a transaction is left open when everything is over")
		}
	}
}

// checkPg reports what the server could not interpret: no verdict then.
func (e *Env) checkPg() {
	if e.Pg != nil && e.Pg.unsupported != "" {
		e.X.FailSig("unsupported", "the PostgreSQL stand-in does not understand a statement: %s", e.Pg.unsupported)
	}
}

var pgFaults = []string{"error", "drop", "dropafter", "rows", "droprows"}

// pgFaultHarness: any statement of any operation fails in every way.
func pgFaultHarness() *explore.Harness {
	pre := []seqOp{{"nothing", func(s *seq) {}}, saveN(2, "ta!1", "ta", "1"), save1("tb!1", "tb", "1"), del("ta!1", "c")}
	ops := []string{"save2", "osave2", "osave2 wrong", "del", "del wrong", "total", "Events", "EventsByAggregateTypes", "EventsByStream", "EventsByStream from 2", "StartFrom"}
	const maxAt = 9
	return pgCfg(&explore.Harness{Name: "faults-pg",
		Doc: fmt.Sprintf("a store with 0..4 events after one of %d operations, then each of %d operations with each single statement sent to the server failing in %d ways (an error reply, the connection dropped before or after executing, an error or a dropped connection after half of the rows); oracle: an acknowledged operation took effect wholly, a failed one wholly or not at all (an error reply: not at all), a read is complete or reports an error; then every view and a further save are compared with the model", len(pre), len(ops), len(pgFaults)),
		Body: func(x *ctl.X) {
			p := x.ChooseF(len(pre), 0, func(i int) string { return "after " + pre[i].name })
			o := x.ChooseF(len(ops), 0, func(i int) string { return ops[i] })
			mode := x.ChooseF(len(pgFaults), 0, func(i int) string { return pgFaults[i] })
			at := x.ChooseF(maxAt, 0, func(i int) string { return fmt.Sprint("statement ", i) })
			e := openStore(x, "pg", false)
			if x.Failed() {
				return
			}
			defer e.Close()
			s := &seq{Env: e, m: newModel(), names: []string{"ta!1", "tb!1"}, types: []string{"ta", "tb"}, opName: "setup"}
			saveN(2, "ta!1", "ta", "1").run(s)
			s.save("tb!1", saveOpt{}, s.ev("tb", "1", "a"))
			pre[p].run(s)
			if x.Failed() {
				return
			}
			n, hit := 0, ""
			e.Pg.fault = func(_ *pgSess, sql string) *pgErr {
				n++
				if n-1 != at {
					return nil
				}
				hit = strings.Join(strings.Fields(sql), " ")
				switch pgFaults[mode] {
				case "error":
					return pgErrf("XX000", "injected failure")
				}
				return &pgErr{code: pgFaults[mode]}
			}
			what := func() string {
				return fmt.Sprintf("%s, then %s with statement %d (%.40s) failing (%s)", pre[p].name, ops[o], at, hit, pgFaults[mode])
			}
			cur := s.m.stream("ta!1")
			curN := uint64(len(cur))
			evs := []*Ev{s.ev("ta", "1", "f"), s.ev("ta", "1", "g")}
			var ers []*rangedb.EventRecord
			for _, ev := range evs {
				ers = append(ers, &rangedb.EventRecord{Event: ev, Metadata: meta1})
			}
			var err error
			var got uint64
			var recs, want []Rec
			isSave, isDel, isRead := false, false, false
			switch ops[o] {
			case "save2":
				isSave = true
				got, err = e.St.Save(bgCtx, "ta!1", ers...)
			case "osave2":
				isSave = true
				got, err = e.St.OptimisticSave(bgCtx, curN, "ta!1", ers...)
			case "osave2 wrong":
				_, err = e.St.OptimisticSave(bgCtx, curN+1, "ta!1", ers...)
				if err == nil {
					x.FailSig("accepted", "%s: accepted", what())
				}
			case "del":
				isDel = true
				err = e.St.OptimisticDeleteStream(bgCtx, curN, "ta!1")
			case "del wrong":
				err = e.St.OptimisticDeleteStream(bgCtx, curN+1, "ta!1")
				if err == nil {
					x.FailSig("accepted", "%s: accepted", what())
				}
			case "total":
				got, err = e.St.TotalEventsInStream(bgCtx, "ta!1")
				if err == nil && got != curN {
					x.FailSig("total", "%s: total %d, want %d", what(), got, curN)
				}
			case "Events":
				isRead, want = true, s.m.Recs
				recs, err = drain(e.St.Events(bgCtx, 0))
			case "EventsByAggregateTypes":
				isRead, want = true, s.m.Recs
				recs, err = drain(e.St.EventsByAggregateTypes(bgCtx, 0, "ta", "tb"))
			case "EventsByStream":
				isRead, want = true, cur
				recs, err = drain(e.St.EventsByStream(bgCtx, 0, "ta!1"))
			case "EventsByStream from 2":
				isRead, want = true, filter(cur, func(r Rec) bool { return r.SSN >= 2 })
				recs, err = drain(e.St.EventsByStream(bgCtx, 2, "ta!1"))
			case "StartFrom":
				isRead, want = true, s.m.Recs
				sub := e.St.AllEventsSubscription(bgCtx, 10, rangedb.RecordSubscriberFunc(func(r *rangedb.Record) { recs = append(recs, toRec(r)) }))
				err = sub.StartFrom(0)
				sub.Stop()
			}
			e.Pg.fault = nil
			x.Observe("%s %d %s hit=%v %s", ops[o], at, pgFaults[mode], hit != "", errKind(err))
			if hit == "" && n > maxAt {
				x.Fail("%d statements", n)
			}
			if hit != "" {
				x.Count(1)
			}
			if isRead {
				if !isPrefix(recs, want) {
					x.FailSig("records", "%s: got %s, want %s", what(), shortRecs(recs), shortRecs(want))
				}
				if err == nil && len(recs) < len(want) {
					x.FailSig("silent", "%s: %d of %d records without an error", what(), len(recs), len(want))
				}
				if errKind(err) == "notfound" && len(cur) > 0 {
					x.FailSig("silent", "%s: stream not found", what())
				}
			}
			after, aerr := drain(e.St.Events(bgCtx, 0))
			if aerr != nil {
				x.FailSig("read", "%s: reading afterwards: %v", what(), aerr)
				return
			}
			changed := len(after) != len(s.m.Recs)
			mayChange := pgFaults[mode] == "dropafter" || pgFaults[mode] == "droprows"
			switch {
			case isSave:
				if err == nil && got != curN+2 {
					x.FailSig("number", "%s: returned %d, want %d", what(), got, curN+2)
				}
				if err == nil != changed && !(err != nil && mayChange) {
					x.FailSig("atomic", "%s: error %v, but the store holds %s", what(), err, shortRecs(after))
				}
				if changed {
					for i, ev := range evs {
						k := len(after) - len(evs) + i
						if k < 0 {
							x.FailSig("atomic", "%s: the store holds %s", what(), shortRecs(after))
							return
						}
						r := after[k]
						if r.Stream != "ta!1" || r.SSN != curN+1+uint64(i) || r.Data != "*h.Ev"+js(ev) || r.Meta != js(meta1) {
							x.FailSig("atomic", "%s: stored %s for %s", what(), r, js(ev))
						}
						s.m.Recs = append(s.m.Recs, r)
						s.m.Log = append(s.m.Log, r)
						s.m.EvIDs[r.EvID] = true
						s.m.MaxGSN = r.GSN
					}
				}
			case isDel:
				if len(cur) > 0 && err == nil != changed && !(err != nil && mayChange) {
					x.FailSig("atomic", "%s: error %v, but the store holds %s", what(), err, shortRecs(after))
				}
				if changed {
					s.m.delete("ta!1")
				}
			}
			s.opName = what()
			s.check(false)
			s.save("ta!1", saveOpt{exp: "c"}, s.ev("ta", "1", "z"))
			s.check(false)
		}})
}

// oddEvent is stored as something that does not fit the type of its name.
type oddEvent struct{ *Ev }

func (oddEvent) MarshalJSON() ([]byte, error) { return []byte("[1]"), nil }

// pgListenHarness: what reaches a subscription when the store is notified by
// the database, over lost connections and notifications it cannot use.
func pgListenHarness(depthQ, depthT int) *explore.Harness {
	ops := []string{"save", "save from elsewhere", "save2 from elsewhere", "lose the connection", "lose the connection for 25s", "wait 15s", "foreign notification", "undecodable event", "lose it while saving"}
	depth := explore.Tier(depthQ, depthT)
	return &explore.Harness{Name: "listen-pg-notify",
		Doc: fmt.Sprintf("every sequence of %d of %d steps (%s) while a live subscription runs on a store that the database notifies, then a save; oracle: the subscription receives every decodable event once, in order; after CloseDB no goroutine and no connection is left", depth, len(ops), strings.Join(ops, ", ")),
		Body: func(x *ctl.X) {
			var script []int
			odd, lost := false, false
			for i := 0; i < depth; i++ {
				o := x.ChooseF(len(ops), 0, func(i int) string { return ops[i] })
				script = append(script, o)
				odd = odd || o == 7
				lost = lost || o == 3 || o == 4 || o == 8
			}
			if odd && lost {
				return // what lies behind an undecodable event cannot be read again
			}
			e := openStore(x, "pg-notify", false)
			if x.Failed() {
				return
			}
			base := 0
			x.Quiesce()
			if err := func() error { e.keep = true; defer func() { e.keep = false }(); return e.stop() }(); err != nil {
				x.Fail("close: %v", err)
			}
			x.Quiesce()
			base = len(e.connGoroutines())
			if err := e.openPg(); err != nil {
				x.Fail("open again: %v", err)
				return
			}
			other, err := postgresstore.New(pgConfig, postgresstore.WithClock(e.clk), postgresstore.WithUUIDGenerator(e.uid))
			if err != nil {
				x.Fail("open another store: %v", err)
				return
			}
			x.Quiesce()
			var want, got []string
			n := 0
			save := func(st rangedb.Store, stream string, k int) {
				var ers []*rangedb.EventRecord
				for i := 0; i < k; i++ {
					n++
					ev := &Ev{Typ: stream[:2], ID: "1", P: fmt.Sprint("e", n)}
					want = append(want, js(ev))
					ers = append(ers, &rangedb.EventRecord{Event: ev, Metadata: meta1})
				}
				if _, err := st.Save(bgCtx, stream, ers...); err != nil {
					x.FailSig("save", "save: %v", err)
				}
			}
			save(other, "tb!1", 1)
			want = nil
			x.Quiesce()
			sub := startSub(e.St, bgCtx, nil, 10, func(r *rangedb.Record) { got = append(got, js(r.Data)) })
			if err := sub.Start(); err != nil {
				x.Fail("start: %v", err)
				return
			}
			lose := func() {
				for _, s := range append([]*pgSess(nil), e.Pg.db.sess...) {
					if len(s.listens) > 0 {
						_ = s.c.Close()
					}
				}
			}
			names := ""
			for _, o := range script {
				names += ops[o] + ", "
				switch o {
				case 0:
					save(e.St, "ta!1", 1)
				case 1:
					save(other, "tb!1", 1)
				case 2:
					save(other, "tb!2", 2)
				case 3:
					lose()
				case 4:
					e.Pg.fault = func(s *pgSess, sql string) *pgErr {
						if strings.Contains(strings.ToUpper(sql), "LISTEN") {
							return &pgErr{code: "drop"}
						}
						return nil
					}
					lose()
					x.Quiesce()
					save(other, "tb!1", 1)
					time.Sleep(25 * time.Second)
					e.Pg.fault = nil
				case 5:
					time.Sleep(15 * time.Second)
				case 6:
					for _, s := range e.Pg.db.sess {
						if s.listens["records"] {
							s.notify(1, "records", "something else")
						}
					}
				case 7:
					if _, err := other.Save(bgCtx, "tc!1", &rangedb.EventRecord{Event: oddEvent{&Ev{Typ: "tc", ID: "1"}}}); err != nil {
						x.FailSig("save", "save: %v", err)
					}
				case 8:
					lose()
					save(other, "tb!1", 1)
				}
				if o != 8 && o != 3 {
					x.Quiesce()
				}
			}
			time.Sleep(100 * time.Second)
			x.Quiesce()
			save(e.St, "ta!2", 1)
			x.Quiesce()
			x.Observe("%s", names)
			if js(got) != js(want) {
				x.FailSig("missing", "%s: the subscription received %s, want %s", names, js(got), js(want))
			}
			sub.Stop()
			x.Quiesce()
			if err := other.CloseDB(); err != nil {
				x.Fail("close: %v", err)
			}
			e.keep = true
			if err := e.stop(); err != nil {
				x.Fail("close: %v", err)
			}
			e.stop = nil
			time.Sleep(100 * time.Second)
			x.Quiesce()
			if gs := e.connGoroutines(); len(gs) != base {
				x.FailSig("leak", "%d goroutines after CloseDB, %d after the previous one: %s", len(gs), base, x.Describe())
			}
			if len(e.Pg.db.sess) > 0 {
				x.FailSig("leak", "%d connections are left after CloseDB", len(e.Pg.db.sess))
			}
			e.Close()
			e.Pg.close()
			x.Quiesce()
		}}
}

// pgOddHarness: events whose stored form does not fit their type, and a store
// made without options.
func pgOddHarness() *explore.Harness {
	return &explore.Harness{Name: "odd-pg",
		Doc: "batches of 1..3 events of which any one is stored in a form that does not fit the type bound to its name, through Save and OptimisticSave, on a store with and without notifications, with and without options: an error means that nothing was stored or published, no error that all was",
		Body: func(x *ctl.X) {
			kind := []string{"pg", "pg-notify"}[x.ChooseF(2, 0, func(i int) string { return []string{"pg", "pg-notify"}[i] })]
			plain := x.ChooseF(2, 0, func(i int) string { return []string{"options", "no options"}[i] }) == 1
			n := 1 + x.ChooseF(3, 0, func(i int) string { return fmt.Sprint(i+1, " events") })
			at := x.ChooseF(n+1, 0, func(i int) string { return fmt.Sprint("odd event ", i) })
			opt := x.ChooseF(2, 0, func(i int) string { return []string{"Save", "OptimisticSave"}[i] }) == 1
			e := openStore(x, kind, false)
			if x.Failed() {
				return
			}
			defer e.Close()
			st := e.St
			if plain {
				var opts []postgresstore.Option
				if kind == "pg-notify" {
					opts = append(opts, postgresstore.WithPgNotify())
				}
				p, err := postgresstore.New(pgConfig, opts...)
				if err != nil {
					x.Fail("open: %v", err)
					return
				}
				p.Bind(&Ev{})
				defer p.CloseDB()
				st = p
			}
			got := 0
			sub := startSub(st, bgCtx, nil, 10, func(r *rangedb.Record) { got++ })
			if err := sub.Start(); err != nil {
				x.Fail("start: %v", err)
				return
			}
			defer sub.Stop()
			var ers []*rangedb.EventRecord
			for i := 0; i < n; i++ {
				er := &rangedb.EventRecord{Event: &Ev{Typ: "ta", ID: "1", P: fmt.Sprint(i)}}
				if i == at {
					er.Event = oddEvent{&Ev{Typ: "ta", ID: "1"}}
				}
				ers = append(ers, er)
			}
			var err error
			noPanic(x, func() string { return "saving" }, func() {
				if opt {
					_, err = st.OptimisticSave(bgCtx, 0, "ta!1", ers...)
				} else {
					_, err = st.Save(bgCtx, "ta!1", ers...)
				}
			})
			x.Quiesce()
			total, terr := st.TotalEventsInStream(bgCtx, "ta!1")
			x.Observe("%s %v %d %d %v %v", kind, plain, n, at, err != nil, total)
			switch {
			case terr != nil:
				x.FailSig("read", "total: %v", terr)
			case err != nil && (total != 0 || got != 0):
				x.FailSig("atomic", "Save failed (%v), but %d events are stored and %d were published", err, total, got)
			case err == nil && total != uint64(n):
				x.FailSig("atomic", "Save succeeded, but %d of %d events are stored", total, n)
			case at == n && (err != nil || got != n):
				x.FailSig("save", "error %v, %d of %d events published", err, got, n)
			}
			if at == n {
				recs, err := drain(st.Events(bgCtx, 0))
				ids := map[string]bool{}
				for _, r := range recs {
					ids[r.EvID] = r.EvID != ""
				}
				if err != nil || len(ids) != n || ids[""] {
					x.FailSig("read", "read back %s, %v with event IDs %v", shortRecs(recs), err, ids)
				}
			}
		}}
}

// pgOrderHarness: two writers, a live subscription and a reader, over one or
// two stores on the same database.
func pgOrderHarness(kind string, quick, thorough int) *explore.Harness {
	return &explore.Harness{Name: "order-" + kind, Quick: quick, Thorough: thorough,
		Doc: fmt.Sprintf("every pair of %d writer scripts, through one store or two stores on the same database, while a live subscription runs and a reader reads everything twice: all interleavings of statements up to the bound; oracle: what was read first is the beginning of what is read later (numbers become visible in order), and the subscription receives every event once, in order (those of its own store, unless the database notifies)", len(writerScripts)),
		Cfg: ctl.Config{BlockCost: 1, SelectCost: 1, Families: true},
		Body: func(x *ctl.X) {
			two := x.ChooseF(2, 0, func(i int) string { return []string{"one store", "two stores"}[i] }) == 1
			w0 := x.ChooseF(len(writerScripts), 0, func(i int) string { return "writer " + writerScripts[i].name })
			w1 := x.ChooseF(len(writerScripts), 0, func(i int) string { return "writer " + writerScripts[i].name })
			reader := x.ChooseF(2, 0, func(i int) string { return []string{"no reader", "reader"}[i] }) == 1
			if !two && w1 < w0 {
				return
			}
			e := openStore(x, kind, false)
			if x.Failed() {
				return
			}
			defer e.Close()
			h := newHist(x, e.St)
			h2 := h
			if two {
				st1, stop1 := e.St, e.stop
				if err := e.openPg(); err != nil {
					x.Fail("open the second store: %v", err)
					return
				}
				h2 = newHist(x, e.St)
				st2 := e.stop
				e.St = st1
				e.stop = func() error {
					e.keep = true
					_ = st2()
					e.keep = false
					return stop1()
				}
			}
			h.saveN("i", "ta!1", 1)
			x.Quiesce()
			var got []Rec
			sub := startSub(e.St, bgCtx, nil, 10, func(r *rangedb.Record) { got = append(got, toRec(r)) })
			if err := sub.Start(); err != nil {
				x.Fail("start: %v", err)
				return
			}
			x.Quiesce()
			x.Explore(true)
			own := map[string]bool{}
			run := func(name string, h *hist, w writerScript) {
				x.Go(name, func() {
					for _, s := range w.saves {
						o := h.saveN(name, s[0].(string), s[1].(int))
						for _, p := range o.payloads {
							if !two || name == "w0" || kind == "pg-notify" {
								own[p] = true
							}
						}
					}
				})
			}
			run("w0", h, writerScripts[w0])
			run("w1", h2, writerScripts[w1])
			if reader {
				x.Go("reader", func() {
					a, err := drain(h2.st.Events(bgCtx, 0))
					b, err2 := drain(e.St.Events(bgCtx, 0))
					if err != nil || err2 != nil {
						x.FailSig("read", "reading: %v, %v", err, err2)
					}
					if !isPrefix(a, b) {
						x.FailSig("order", "a read saw %s after a read saw %s", shortRecs(b), shortRecs(a))
					}
				})
			}
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "threads %v never finish: %s", stuck, x.Describe())
				return
			}
			x.Quiesce()
			all := wanted(x, e.St, 0, nil)
			want := filter(all, func(r Rec) bool { return r.GSN > 1 && own[payload(r)] })
			if !recsEqual(got, want) {
				x.FailSig("missing", "the subscription received %s, want %s", shortRecs(got), shortRecs(want))
			}
			x.Observe("%v %s", two, shortRecs(all))
			sub.Stop()
			x.Quiesce()
		}}
}

func init() {
	kinds := []string{"pg"}
	all := func(s *seq) { s.subscribe("all", 0); s.subscribe("ta", 0, "ta") }
	var hs []*explore.Harness
	add := func(l ...*explore.Harness) {
		for _, h := range l {
			hs = append(hs, pgCfg(h))
		}
	}
	batches := append(saveOps("ta!1", "ta", "1"), save1("tb!1", "tb", "1"), save1("custom", "ta", "1"), del("ta!1", "c"),
		seqOp{"save notype,othertype", func(s *seq) { s.save("ta!1", saveOpt{}, s.ev("", "1", "a"), s.ev("ta", "1", "b")) }},
		seqOp{"save ta to tb!1", func(s *seq) { s.save("tb!1", saveOpt{}, s.ev("ta", "1", "a")) }})
	add(seqSpec{name: "batches", kinds: []string{"pg", "pg-notify"}, names: []string{"ta!1", "custom", "tb!1"}, types: []string{"ta", "tb", "other", ""},
		doc: "saves of 0..3 events failing at each position for each cause, with subscriptions watching", setup: all, ops: batches, quick: 2, thorough: 3}.harnesses()...)
	add(seqSpec{name: "history", kinds: kinds, names: []string{"ta!1", "ta!2", "tb!1", "odd", "never"}, types: []string{"ta", "tb"},
		doc: "saves, deletes with right, wrong and extreme expectations, failures and reopening; every start position and set of types at the end", ops: []seqOp{
			saveN(2, "ta!1", "ta", "1"), save1("ta!2", "ta", "2"), saveN(3, "tb!1", "tb", "1"), save1("odd", "ta", "1"),
			{"save1 tb to odd", func(s *seq) { s.save("odd", saveOpt{}, s.ev("tb", "2", "a")) }},
			{"save ok,fail", func(s *seq) { s.save("ta!1", saveOpt{}, s.ev("ta", "1", "a"), s.ev("ta", "1", "FAIL")) }},
			{"osave1 -1", func(s *seq) { s.save("ta!1", saveOpt{exp: "-1"}, s.ev("ta", "1", "a")) }},
			del("ta!1", "c"), del("ta!1", "+1"), del("ta!1", "0"), del("ta!1", "max"), del("odd", "c"), del("never", "0"),
			{"del cancelled", func(s *seq) { s.del("ta!1", "c", -1) }}, reopenOp},
		quick: 3, thorough: 4, fullLast: true, endReopen: true}.harnesses()...)
	add(nameHarness(kinds)...)
	add(pgFaultHarness())
	add(cancelHarness("pg", openStore))
	add(concHarness("pairs", "pg", concAlphabet, 2, false, 1, 2, false),
		concHarness("optimistic", "pg", optAlphabet, 2, false, 1, 2, false))
	add(liveHarness("pg", false, 0, 1))
	for _, k := range []string{"pg", "pg-notify"} {
		add(fromHarness(k, false, 0, 1), fromFewHarness(k, 1, 2), dropHarness(k, 0, 1), stopHarness(k, false, 1, 2))
	}
	add(liveSubHarness("pg", false, 1, 2))
	add(pgOrderHarness("pg", 1, 2), pgOrderHarness("pg-notify", 1, 2))
	add(pgOddHarness())
	add(pgListenHarness(3, 4))
	explore.Register(&explore.Property{ID: "C28", Level: "model_checking", Rule: seqRule,
		Assumptions: []string{"the server is a stand-in that speaks the PostgreSQL wire protocol to lib/pq and executes the statements with multi-version rows, READ COMMITTED snapshots, row and advisory locks, unique constraints, sequences and notifications as PostgreSQL documents them", "sequence numbers and start positions fit the database's integer types; names contain no NUL", "goroutines of lib/pq, database/sql and the stand-in run as soon as they can; the interleavings are those of the clients' statements"},
		Harnesses:   hs})
}
