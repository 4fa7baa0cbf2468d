package h

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/projection"
	"github.com/inklabs/rangedb/pkg/rangedbui"

	"verifmc/ctl"
	"verifmc/explore"
)

// feed is a browser's websocket connection to a live page.
type feed struct {
	x          *ctl.X
	path       string
	msgs       [][]byte
	upgraded   bool
	returned   bool // the handler has returned
	disconnect func()
}

// openFeed connects to a websocket path of a handler through a synchronous pipe.
func openFeed(x *ctl.X, h http.Handler, path string) *feed {
	f := &feed{x: x, path: path}
	server, client := net.Pipe()
	ctx, cancel := context.WithCancel(bgCtx)
	f.disconnect = func() { _ = client.Close() }
	r := httptest.NewRequest("GET", "http://h"+path, nil).WithContext(ctx)
	for k, v := range map[string]string{"Connection": "Upgrade", "Upgrade": "websocket", "Sec-WebSocket-Version": "13", "Sec-WebSocket-Key": "dGhlIHNhbXBsZSBub25jZQ=="} {
		r.Header.Set(k, v)
	}
	rec := httptest.NewRecorder()
	go func() {
		h.ServeHTTP(&hijackWriter{rec, server}, r)
		f.returned = true
		cancel()
		if !f.upgraded {
			_ = server.Close()
		}
	}()
	go func() {
		br := bufio.NewReaderSize(client, 16)
		resp, err := http.ReadResponse(br, r)
		if err != nil || resp.StatusCode != 101 {
			x.FailSig("refused", "%s: %v %v %s", path, err, rec.Code, rec.Body)
			return
		}
		f.upgraded = true
		for {
			op, msg, err := readFrame(br)
			if err != nil {
				return
			}
			if op == 8 {
				continue
			}
			if op != 1 {
				x.FailSig("message", "%s: frame %d %q", path, op, msg)
				return
			}
			x.Point()
			f.msgs = append(f.msgs, msg)
		}
	}()
	return f
}

// close disconnects and sees that nothing is left of the connection.
func (f *feed) close(before []ctl.Goroutine) {
	f.disconnect()
	f.x.Quiesce()
	if !f.returned {
		f.x.FailSig("not-released", "%s: the handler does not return after the client disconnected: %s", f.path, f.x.Describe())
		return
	}
	if l := newGoroutines(f.x, before); len(l) > 0 {
		f.x.FailSig("leak", "%s: after the client disconnected, still there: %v", f.path, l)
	}
}

// checkTypeFeed compares the messages of the live page of a type with the
// store. The feed began when the statistics had the events up to one of latest.
func (f *feed) checkTypeFeed(st rangedb.Store, typ string, latest ...uint64) {
	x := f.x
	recs := allRecords(st.EventsByAggregateTypes(bgCtx, 0, typ))
	totals := map[uint64]int{} // events of the type saved up to a record
	for i, r := range recs {
		totals[r.GlobalSequenceNumber] = i + 1
	}
	var got []Rec
	var off []int
	for _, m := range f.msgs {
		var env struct {
			Record      json.RawMessage
			TotalEvents uint64
		}
		d := json.NewDecoder(bytes.NewReader(m))
		d.DisallowUnknownFields()
		if err := d.Decode(&env); err != nil {
			x.FailSig("message", "%s: %q: %v", f.path, m, err)
			return
		}
		r, err := recordFromJSON(env.Record)
		if err != nil {
			x.FailSig("message", "%s: %q: %v", f.path, m, err)
			return
		}
		got = append(got, toRec(r))
		off = append(off, int(env.TotalEvents)-totals[r.GlobalSequenceNumber])
	}
	var sig, msg string
	for _, l := range latest {
		var s string
		s, msg = f.verdict(recs, got, off, l)
		if s == "" {
			return
		}
		if sig == "" || s == "last-twice" || sig == "live-records" {
			sig = s
		}
	}
	if sig == "last-twice" {
		x.Soft(sig)
	}
	x.FailSig(sig, "%s", msg)
}

func (f *feed) verdict(recs []*rangedb.Record, got []Rec, off []int, latest uint64) (sig, msg string) {
	var want []Rec
	ofType := false // whether the last event is
	for _, r := range recs {
		if r.GlobalSequenceNumber >= latest {
			want = append(want, toRec(r))
		}
		ofType = ofType || r.GlobalSequenceNumber == latest
	}
	if !recsEqual(got, want) && !(ofType && recsEqual(got, want[1:])) {
		return "live-records", fmt.Sprintf("%s, opened after event %d, shows %s, want %s", f.path, latest, shortRecs(got), shortRecs(want))
	}
	twice := 0
	if ofType && len(got) == len(want) && len(off) > 0 && off[0] == 1 {
		twice = 1 // the known finding: the event that was counted already is counted again
	}
	for i, o := range off {
		if o != twice {
			return "live-total", fmt.Sprintf("%s, opened after event %d: with event %d (message %d) it shows a total that is off by %d", f.path, latest, got[i].GSN, i+1, o)
		}
	}
	if twice > 0 {
		return "last-twice", fmt.Sprintf("%s, opened after event %d, which is of the type, delivers that event again, and counts it again: its totals are one too high", f.path, latest)
	}
	return "", ""
}

// checkTypesFeed compares the last message of the live list of types with what was saved.
func (f *feed) checkTypesFeed(counts map[string]int) {
	total := 0
	var want []map[string]any
	for _, t := range sortedKeys(counts) {
		total += counts[t]
		want = append(want, map[string]any{"Name": t, "TotalEvents": counts[t]})
	}
	if total == 0 {
		if len(f.msgs) > 0 {
			f.x.FailSig("live-types", "%s of an empty store shows %q", f.path, f.msgs)
		}
		return
	}
	if len(f.msgs) == 0 || canonical(f.msgs[len(f.msgs)-1]) != canonical([]byte(js(map[string]any{"AggregateTypes": want, "TotalEvents": total}))) {
		f.x.FailSig("live-types", "%s of %v shows %q", f.path, counts, f.msgs)
	}
}

func sortedKeys(m map[string]int) (l []string) {
	for k := range m {
		at := 0
		for at < len(l) && l[at] < k {
			at++
		}
		l = append(l[:at], append([]string{k}, l[at:]...)...)
	}
	return l
}

// uiFeedHarness: live pages opened at every point of a history.
func uiFeedHarness(before, after int, kinds []string) *explore.Harness {
	ops := []string{"ta", "tb", "2 ta", "a second stream of ta", "t", "delete ta"}
	return &explore.Harness{Name: "live", ExecsPerGC: 50, Cfg: ctl.Config{Background: bgLevelDB, MaxSteps: 50000000, MaxTimers: 400},
		Doc: fmt.Sprintf("every sequence of up to %d saves of events of 3 types (and deletes), then the live page of a type or the live list of types is opened, then up to %d more: the feed delivers the type's events after the last one the statistics have (and possibly that one), in order, with their contents, each with the number of events of the type saved so far; the list the counts of all types; after the browser disconnects, nothing of the feed is left", before, after),
		Body: func(x *ctl.X) {
			kind := kinds[x.ChooseF(len(kinds), 0, func(i int) string { return kinds[i] + " store" })]
			e := openStore(x, kind, false)
			u := newUI(x, e.St)
			n, last := 0, uint64(0)
			counts := map[string]int{}
			do := func(op int) {
				n++
				s, typ, k := "ta!1", "ta", 1
				switch op {
				case 1:
					s, typ = "tb!1", "tb"
				case 2:
					k = 2
				case 3:
					s = "ta!2"
				case 4:
					s, typ = "t!1", "t"
				case 5:
					if err := e.St.OptimisticDeleteStream(bgCtx, uint64(len(allRecords(e.St.EventsByStream(bgCtx, 0, "ta!1")))), "ta!1"); err != nil && errKind(err) != "notfound" {
						x.Logf("delete: %v", err)
					}
					return
				}
				var ers []*rangedb.EventRecord
				for i := 0; i < k; i++ {
					ers = append(ers, &rangedb.EventRecord{Event: &Ev{Typ: typ, ID: idOf(s), P: fmt.Sprintf("p%d.%d", n, i)}, Metadata: metas()[n%2]})
				}
				if _, err := e.St.Save(bgCtx, s, ers...); err != nil {
					x.FailSig("save", "%v", err)
				}
				counts[typ] += k
				last += uint64(k)
			}
			del := false
			for i := 0; i < before; i++ {
				op := x.ChooseF(len(ops)+1, 0, func(i int) string {
					if i == len(ops) {
						return "open"
					}
					return ops[i]
				})
				if op == len(ops) {
					break
				}
				del = del || op == 5
				do(op)
			}
			x.Quiesce()
			base := x.Goroutines()
			if !del { // deleted events are counted, but cannot be told from the store
				f := openFeed(x, u.h, "/live/a/ta")
				time.Sleep(time.Second)
				x.Quiesce()
				at := u.stats.LatestGlobalSequenceNumber()
				for i := 0; i < after; i++ {
					op := x.ChooseF(6, 0, func(i int) string {
						if i == 5 {
							return "end"
						}
						return ops[i]
					})
					if op == 5 {
						break
					}
					do(op)
				}
				x.Quiesce()
				f.checkTypeFeed(e.St, "ta", at)
				f.close(base)
			}
			base = x.Goroutines()
			f := openFeed(x, u.h, "/live/aggregate-types")
			time.Sleep(time.Second)
			x.Quiesce()
			f.checkTypesFeed(counts)
			do(1)
			time.Sleep(time.Second)
			x.Quiesce()
			f.checkTypesFeed(counts)
			f.disconnect()
			do(0) // noticed with the next event
			time.Sleep(time.Second)
			f.close(base)
			x.Observe("%v %d", counts, len(f.msgs))
			u.stop()
			x.Quiesce()
		}}
}

// uiFeedRaceHarness: a live page opened while events are saved.
func uiFeedRaceHarness(quick, thorough int) *explore.Harness {
	cfg := netCfg()
	return &explore.Harness{Name: "live-race", Quick: quick, Thorough: thorough, Cfg: cfg,
		Doc: "the live page of a type, or the live list of types, is opened on a store with 0..2 events of the type or another while a writer saves two events of the type or others, and another after; all interleavings up to the bound; oracle as for live, with the statistics as they were at some moment during the connecting",
		Body: func(x *ctl.X) {
			pre := x.ChooseF(4, 0, func(i int) string {
				return []string{"empty store", "an event of the type", "of another", "of another, of the type"}[i]
			})
			types := [][]string{{"ta", "ta"}, {"tb", "ta"}, {"ta", "tb"}}
			w := x.ChooseF(len(types), 0, func(i int) string { return fmt.Sprint("writer saves ", types[i]) })
			list := x.ChooseF(2, 0, func(i int) string { return []string{"page of ta", "list of types"}[i] }) == 1
			e := openStore(x, "mem", false)
			u := newUI(x, e.St)
			counts := map[string]int{}
			save := func(typ string) {
				counts[typ]++
				if _, err := e.St.Save(bgCtx, typ+"!1", &rangedb.EventRecord{Event: &Ev{Typ: typ, ID: "1", P: "p"}}); err != nil {
					x.FailSig("save", "%v", err)
				}
			}
			for i, t := range []string{"tb", "ta"} {
				if pre&(2>>i) != 0 {
					save(t)
				}
			}
			x.Quiesce()
			base := x.Goroutines()
			first := u.stats.LatestGlobalSequenceNumber()
			path := "/live/a/ta"
			if list {
				path = "/live/aggregate-types"
			}
			x.Explore(true)
			f := openFeed(x, u.h, path)
			x.Go("w", func() {
				for _, t := range types[w] {
					save(t)
				}
			})
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "threads %v never finish: %s", stuck, x.Describe())
				return
			}
			time.Sleep(time.Second)
			x.Quiesce()
			var at []uint64
			for l := first; l <= u.stats.LatestGlobalSequenceNumber(); l++ {
				at = append(at, l)
			}
			save("ta")
			time.Sleep(time.Second)
			x.Quiesce()
			if list {
				f.checkTypesFeed(counts)
				f.disconnect()
				save("ta")
				time.Sleep(time.Second)
			} else {
				f.checkTypeFeed(e.St, "ta", at...)
			}
			f.close(base)
			x.Observe("%d %d %d", pre, w, len(f.msgs))
			u.stop()
			x.Quiesce()
		}}
}

// uiListRaceHarness: the live list of types is put together while events arrive.
func uiListRaceHarness(quick, thorough int) *explore.Harness {
	return &explore.Harness{Name: "list-race", Quick: quick, Thorough: thorough, Cfg: netCfg(),
		Doc: "the live list of types while the statistics receive 1..3 events of two types (one known before, or none), the first when the browser connects, the others at the moments the list looks for news; all interleavings up to the bound; when it is quiet, the list shows all",
		Body: func(x *ctl.X) {
			pre := x.ChooseF(2, 0, func(i int) string { return fmt.Sprint(i, " events before") })
			w := 1 + x.ChooseF(7, 0, func(i int) string { return fmt.Sprintf("events %03b", i+1) })
			stats := projection.NewAggregateTypeStats()
			counts := map[string]int{}
			n := uint64(0)
			accept := func(typ string) {
				n++
				counts[typ]++
				stats.Accept(&rangedb.Record{AggregateType: typ, GlobalSequenceNumber: n, Data: &Ev{}})
			}
			if pre > 0 {
				accept("ta")
			}
			h := rangedbui.New(stats, openStore(x, "mem", false).St, rangedbui.WithHost("host"))
			x.Quiesce()
			base := x.Goroutines()
			x.Explore(true)
			f := openFeed(x, h, "/live/aggregate-types")
			x.Go("events", func() {
				for i := 0; i < 3; i++ {
					if w>>i&1 != 0 {
						accept([]string{"tb", "ta", "tb"}[i])
					}
					time.Sleep(100 * time.Millisecond) // as long as the list waits
				}
			})
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "threads %v never finish: %s", stuck, x.Describe())
				return
			}
			time.Sleep(time.Second)
			x.Quiesce()
			f.checkTypesFeed(counts)
			x.Observe("%d %d %d", pre, w, len(f.msgs))
			f.disconnect()
			accept("ta")
			time.Sleep(time.Second)
			f.close(base)
		}}
}
