package h

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/projection"
	"github.com/inklabs/rangedb/pkg/rangedbapi"

	"verifmc/ctl"
	"verifmc/explore"
)

// counts is what the aggregate statistics should be.
type counts struct {
	types         map[string]uint64
	total, latest uint64
}

func (c counts) add(r *rangedb.Record) counts {
	n := counts{types: map[string]uint64{}, total: c.total + 1, latest: r.GlobalSequenceNumber}
	for k, v := range c.types {
		n.types[k] = v
	}
	n.types[r.AggregateType]++
	return n
}

func foldCounts(recs []*rangedb.Record) counts {
	c := counts{}
	for _, r := range recs {
		c = c.add(r)
	}
	return c
}

// diff compares the accessors of a projection with c.
func (c counts) diff(p *projection.AggregateTypeStats) string {
	var want []string
	for k := range c.types {
		want = append(want, k)
	}
	sort.Strings(want)
	got := p.SortedAggregateTypes()
	if strings.Join(got, "\x00") != strings.Join(want, "\x00") || len(got) != len(want) {
		return fmt.Sprintf("types %q, want %q", got, want)
	}
	for _, k := range append(want, "never") {
		if n := p.TotalEventsByAggregateType(k); n != c.types[k] {
			return fmt.Sprintf("%d events of %q, want %d", n, k, c.types[k])
		}
	}
	if p.TotalEvents() != c.total || p.LatestGlobalSequenceNumber() != c.latest {
		return fmt.Sprintf("%d events to number %d, want %d to %d", p.TotalEvents(), p.LatestGlobalSequenceNumber(), c.total, c.latest)
	}
	return ""
}

func (c counts) String() string { return fmt.Sprintf("%v/%d/%d", js(c.types), c.total, c.latest) }

var statTypes = []string{"ta", "tb", "", "t\"<é\n"}

// statRecords makes records of the chosen types; every other step skips numbers, as after deletions.
func statRecords(types []int) []*rangedb.Record {
	var recs []*rangedb.Record
	gsn := uint64(0)
	for i, t := range types {
		gsn += uint64(1 + i%2*3)
		recs = append(recs, &rangedb.Record{AggregateType: statTypes[t], AggregateID: "1", StreamName: statTypes[t] + "!1", GlobalSequenceNumber: gsn, EventType: "E"})
	}
	return recs
}

func acceptAll(p *projection.AggregateTypeStats, recs []*rangedb.Record) {
	for _, r := range recs {
		p.Accept(r)
	}
}

// foldHarness: the projection as a fold, with a snapshot at every cut.
func foldHarness() *explore.Harness {
	n := explore.Tier(5, 7)
	return &explore.Harness{Name: "fold", ExecsPerGC: 2000,
		Doc: fmt.Sprintf("every sequence of up to %d events of %d aggregate types: at every moment the accessors equal the fold; a snapshot taken at every cut, restored into a fresh or a used projection and resumed equals never stopping; so does a snapshot of the restored one", n, len(statTypes)),
		Body: func(x *ctl.X) {
			var types []int
			for len(types) < n {
				c := x.ChooseF(len(statTypes)+1, 0, func(i int) string { return append([]string{"end"}, statTypes...)[i] })
				if c == 0 {
					break
				}
				types = append(types, c-1)
			}
			recs := statRecords(types)
			full := projection.NewAggregateTypeStats()
			if d := foldCounts(nil).diff(full); d != "" {
				x.FailSig("fold", "empty: %s", d)
			}
			for cut := 0; cut <= len(recs); cut++ {
				if cut > 0 {
					full.Accept(recs[cut-1])
				}
				if d := foldCounts(recs[:cut]).diff(full); d != "" {
					x.FailSig("fold", "after %d events of types %v: %s", cut, types, d)
					return
				}
				var snap bytes.Buffer
				if err := full.SaveSnapshot(&snap); err != nil {
					x.FailSig("save", "snapshot after %d events: %v", cut, err)
					return
				}
				if d := foldCounts(recs[:cut]).diff(full); d != "" {
					x.FailSig("fold", "after saving a snapshot of %d events: %s", cut, d)
					return
				}
				for used := 0; used < 2; used++ {
					p := projection.NewAggregateTypeStats()
					if used == 1 {
						acceptAll(p, statRecords([]int{0, 1, 1}))
					}
					if err := p.LoadFromSnapshot(bytes.NewReader(snap.Bytes())); err != nil {
						x.FailSig("load", "a snapshot of %d events does not load: %v", cut, err)
						return
					}
					if d := foldCounts(recs[:cut]).diff(p); d != "" {
						x.FailSig("restore", "restored after %d events of types %v: %s", cut, types, d)
						return
					}
					for i := cut; i < len(recs); i++ {
						p.Accept(recs[i])
						if d := foldCounts(recs[:i+1]).diff(p); d != "" {
							x.FailSig("resume", "restored after %d events and resumed to %d of types %v: %s", cut, i+1, types, d)
							return
						}
					}
					var again bytes.Buffer
					q := projection.NewAggregateTypeStats()
					if err := p.SaveSnapshot(&again); err != nil {
						x.FailSig("save", "second snapshot: %v", err)
					}
					if err := q.LoadFromSnapshot(&again); err != nil {
						x.FailSig("load", "second snapshot: %v", err)
					} else if d := foldCounts(recs).diff(q); d != "" {
						x.FailSig("restore", "second snapshot: %s", d)
					}
				}
				if d := foldCounts(recs[:cut]).diff(full); d != "" {
					x.FailSig("alias", "the saved projection changed: %s", d)
					return
				}
				x.Count(1)
			}
			x.Observe("%v", types)
		}}
}

// unreadableHarness: snapshots that are not whole.
func unreadableHarness() *explore.Harness {
	contents := [][]int{{}, {0}, {0, 1, 1}, {3, 2, 0, 0, 1}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}}
	return &explore.Harness{Name: "unreadable",
		Doc: "every truncation of the snapshots of 5 contents, the same with zero bytes for the lost tail, snapshots with a member missing, null or of another type, and other JSON values: loading reports an error and leaves the projection as it was, or restores exactly what was saved (after a changed member, something); the projection can be used afterwards",
		Body: func(x *ctl.X) {
			recs := statRecords(contents[x.ChooseF(len(contents), 0, func(i int) string { return fmt.Sprintf("content %d", i) })])
			src := projection.NewAggregateTypeStats()
			acceptAll(src, recs)
			var buf bytes.Buffer
			if err := src.SaveSnapshot(&buf); err != nil {
				x.FailSig("save", "%v", err)
				return
			}
			whole := buf.Bytes()
			inputs := []string{"null", "{}", "[]", "0", "\"\"", "true", " ", "{\"a\":1}"}
			for i := range whole {
				inputs = append(inputs, string(whole[:i]), string(whole[:i])+strings.Repeat("\x00", len(whole)-i))
			}
			strict := len(inputs)
			var members map[string]json.RawMessage
			if json.Unmarshal(whole, &members) == nil {
				var keys []string
				for k := range members {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				for _, k := range keys {
					old := members[k]
					for _, v := range []string{"", "null", "[]", "\"x\"", "-1", "1.5", "{\"ta\":-1}", "{\"ta\":null}"} {
						if members[k] = json.RawMessage(v); v == "" {
							delete(members, k)
						}
						b, _ := json.Marshal(members)
						inputs = append(inputs, string(b))
					}
					members[k] = old
				}
			}
			before := statRecords([]int{1, 1})
			for n, in := range inputs {
				for used := 0; used < 2; used++ {
					was := foldCounts(before[:2*used])
					p := projection.NewAggregateTypeStats()
					acceptAll(p, before[:2*used])
					state := foldCounts(recs)
					err := p.LoadFromSnapshot(strings.NewReader(in))
					if err != nil {
						state = was
					}
					if d := state.diff(p); d != "" && (n < strict || err != nil) {
						x.FailSig("partial", "snapshot %q of %v loaded (%v) into %v: %s", in, foldCounts(recs), err, was, d)
						return
					}
					for _, r := range statRecords([]int{0, 1, 2}) {
						state = state.add(r)
						func() {
							defer func() {
								if e := recover(); e != nil {
									x.FailSig("unusable", "after loading %q (%v) an event is not accepted: %v", in, err, e)
								}
							}()
							p.Accept(r)
						}()
						if x.Failed() {
							return
						}
					}
					if d := state.diff(p); d != "" && (n < strict || err != nil) {
						x.FailSig("unusable", "after loading %q (%v) and 3 events: %s", in, err, d)
						return
					}
				}
			}
			x.Count(len(inputs))
			x.Observe("%d", len(inputs))
		}}
}

// pieces passes what a projection writes on in pieces, with a scheduling point before each, and may fail.
type pieces struct {
	projection.SnapshotProjection
	x      *ctl.X
	size   int
	failAt int
	n      int
}

func (p *pieces) SaveSnapshot(w io.Writer) error {
	return p.SnapshotProjection.SaveSnapshot(&pieceWriter{p, w})
}

type pieceWriter struct {
	p *pieces
	w io.Writer
}

func (w *pieceWriter) Write(b []byte) (int, error) {
	n := 0
	for len(b) > 0 {
		k := w.p.size
		if k > len(b) {
			k = len(b)
		}
		w.p.x.Point()
		if w.p.n++; w.p.n == w.p.failAt {
			return n, errRead
		}
		m, err := w.w.Write(b[:k])
		n += m
		if err != nil {
			return n, err
		}
		b = b[k:]
	}
	return n, nil
}

// dirFiles reads a directory.
func dirFiles(dir string) map[string]string {
	m := map[string]string{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if b, err := os.ReadFile(filepath.Join(dir, e.Name())); err == nil {
			m[e.Name()] = string(b)
		}
	}
	return m
}

func putDir(files map[string]string) string {
	dir, err := os.MkdirTemp("", "mcsnap")
	if err != nil {
		panic(err)
	}
	for n, b := range files {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(b), 0o600); err != nil {
			panic(err)
		}
	}
	return dir
}

// saveCrashHarness: a crash at every point of a snapshot save.
func saveCrashHarness() *explore.Harness {
	long := make([]int, 120)
	for i := range long {
		long[i] = i % 4
	}
	contents := [][]int{{}, {0}, {1, 1, 2, 3}, long}
	return &explore.Harness{Name: "save-crash", Quick: 1, Thorough: 2, ExecsPerGC: 200,
		Cfg: ctl.Config{Stmt: true, BlockCost: 1, SelectCost: 1, Families: true},
		Doc: fmt.Sprintf("the disk snapshot store saves one of %d contents over a snapshot of another or none, writing in pieces of 1, 7 bytes or all, with a write failing at each of the first pieces or none: at every statement of the save a crash leaves the directory as it is, with every truncation of each file written: the snapshot then loads as the old or the new one or reports an error and leaves the projection empty; after Save returns without error the new one loads; after it returns an error, the old or the new one or an error", len(contents)),
		Body: func(x *ctl.X) {
			old := x.ChooseF(len(contents)+1, 0, func(i int) string { return fmt.Sprintf("old snapshot %d", i-1) })
			neu := x.ChooseF(len(contents), 0, func(i int) string { return fmt.Sprintf("new snapshot %d", i) })
			size := []int{1 << 20, 7, 1}[x.ChooseF(3, 0, func(i int) string { return []string{"at once", "7 bytes", "1 byte"}[i] })]
			fail := x.ChooseF(4, 0, func(i int) string { return fmt.Sprintf("write failing: %d", i) })
			dir := putDir(nil)
			defer os.RemoveAll(dir)
			store := projection.NewDiskSnapshotStore(dir)
			wants := map[string]counts{}
			if old > 0 {
				p := projection.NewAggregateTypeStats()
				acceptAll(p, statRecords(contents[old-1]))
				if err := store.Save(p); err != nil {
					x.FailSig("save", "%v", err)
					return
				}
				wants["old"] = foldCounts(statRecords(contents[old-1]))
			}
			before := dirFiles(dir)
			wants["new"] = foldCounts(statRecords(contents[neu]))
			load := func(files map[string]string, ws ...string) {
				d := putDir(files)
				defer os.RemoveAll(d)
				p := projection.NewAggregateTypeStats()
				err := projection.NewDiskSnapshotStore(d).Load(p)
				var diffs []string
				if err != nil {
					if diff := foldCounts(nil).diff(p); diff != "" {
						x.FailSig("partial", "files %q: loading failed (%v), but: %s", files, err, diff)
					}
					if inList(ws, "error") {
						return
					}
					diffs = append(diffs, err.Error())
				} else {
					for _, w := range ws {
						if c, ok := wants[w]; ok {
							diff := c.diff(p)
							if diff == "" {
								return
							}
							diffs = append(diffs, w+": "+diff)
						}
					}
				}
				x.FailSig("partial", "files %.300q load as none of %v: %v", files, ws, diffs)
			}
			p := projection.NewAggregateTypeStats()
			acceptAll(p, statRecords(contents[neu]))
			var saveErr error
			x.Explore(true)
			x.Go("save", func() { saveErr = store.Save(&pieces{p, x, size, fail, 0}) })
			var seen map[string]string
			x.Go("crash", func() { seen = dirFiles(dir) })
			x.Quiesce()
			x.Explore(false)
			load(seen, "old", "new", "error")
			for name, b := range seen {
				if b == before[name] || x.Failed() {
					continue
				}
				step := 1 + len(b)/64
				for i := 0; i < len(b); i += step {
					cut := map[string]string{}
					for k, v := range seen {
						cut[k] = v
					}
					cut[name] = b[:i]
					load(cut, "old", "new", "error")
				}
			}
			if saveErr == nil {
				load(dirFiles(dir), "new")
			} else {
				load(dirFiles(dir), "old", "new", "error")
				if fail == 0 {
					x.FailSig("save", "%v", saveErr)
				}
			}
			x.Observe("%d %v", len(seen), saveErr)
		}}
}

// statConcHarness: snapshots and reads while events arrive.
func statConcHarness() *explore.Harness {
	return &explore.Harness{Name: "concurrent", Quick: 2, Thorough: 3, ExecsPerGC: 2000,
		Cfg: ctl.Config{Stmt: true, BlockCost: 1, SelectCost: 1, Families: true},
		Doc: "3 events accepted by one goroutine while another saves a snapshot and another reads every accessor twice, or while two goroutines accept: the snapshot and each accessor's results equal the folds of prefixes that do not go back, and the end is the fold of all",
		Body: func(x *ctl.X) {
			recs := statRecords([]int{0, 1, 0})
			two := x.ChooseF(2, 0, func(i int) string { return []string{"accept, save, read", "accept, accept, save"}[i] }) == 1
			p := projection.NewAggregateTypeStats()
			if x.ChooseF(2, 0, func(i int) string { return []string{"empty", "one event before"}[i] }) == 1 {
				p.Accept(&rangedb.Record{AggregateType: "tz", GlobalSequenceNumber: 0})
			}
			var base bytes.Buffer
			_ = p.SaveSnapshot(&base)
			pre := counts{types: map[string]uint64{}}
			if p.TotalEvents() == 1 {
				pre = pre.add(&rangedb.Record{AggregateType: "tz"})
			}
			states := []counts{pre}
			for _, r := range recs {
				states = append(states, states[len(states)-1].add(r))
			}
			var snap bytes.Buffer
			var snapErr error
			var got [][]interface{}
			read := func() {
				got = append(got, []interface{}{p.SortedAggregateTypes(), p.TotalEventsByAggregateType("ta"), p.TotalEventsByAggregateType("tb"), p.TotalEvents(), p.LatestGlobalSequenceNumber()})
			}
			x.Explore(true)
			if two {
				x.Go("accept1", func() { p.Accept(recs[0]); p.Accept(recs[2]) })
				x.Go("accept2", func() { p.Accept(recs[1]) })
				x.Go("save", func() { snapErr = p.SaveSnapshot(&snap) })
			} else {
				x.Go("accept", func() { acceptAll(p, recs) })
				x.Go("save", func() { snapErr = p.SaveSnapshot(&snap) })
				x.Go("read", func() { read(); read() })
			}
			s := x.Quiesce()
			x.Explore(false)
			if len(s) > 0 {
				x.FailSig("stuck", "%v never return", s)
				return
			}
			if two {
				n := uint64(len(recs)) + pre.total
				if p.TotalEvents() != n || p.TotalEventsByAggregateType("ta") != 2 || p.TotalEventsByAggregateType("tb") != 1 {
					x.FailSig("lost", "3 events accepted by two goroutines: %d, %d, %d", p.TotalEvents(), p.TotalEventsByAggregateType("ta"), p.TotalEventsByAggregateType("tb"))
				}
				q := projection.NewAggregateTypeStats()
				if err := q.LoadFromSnapshot(&snap); err != nil || snapErr != nil {
					x.FailSig("load", "%v, %v", err, snapErr)
				} else if q.TotalEvents()-pre.total != q.TotalEventsByAggregateType("ta")+q.TotalEventsByAggregateType("tb") {
					x.FailSig("torn", "snapshot with %d events, of them %d and %d", q.TotalEvents(), q.TotalEventsByAggregateType("ta"), q.TotalEventsByAggregateType("tb"))
				}
				return
			}
			if d := states[len(states)-1].diff(p); d != "" {
				x.FailSig("lost", "at the end: %s", d)
			}
			at := -1
			if snapErr == nil {
				q := projection.NewAggregateTypeStats()
				if err := q.LoadFromSnapshot(&snap); err != nil {
					x.FailSig("load", "%v", err)
					return
				}
				var ds []string
				for i, s := range states {
					d := s.diff(q)
					if d == "" {
						at = i
						break
					}
					ds = append(ds, d)
				}
				if at < 0 {
					x.FailSig("torn", "the snapshot is of no moment: %v", ds)
					return
				}
				for _, r := range recs[at:] { // resume from the recorded position
					if r.GlobalSequenceNumber <= q.LatestGlobalSequenceNumber() && q.TotalEvents() > 0 {
						x.FailSig("position", "snapshot of %d events records position %d, but event %d follows", q.TotalEvents(), q.LatestGlobalSequenceNumber(), r.GlobalSequenceNumber)
					}
					q.Accept(r)
				}
				if d := states[len(states)-1].diff(q); d != "" {
					x.FailSig("resume", "%s", d)
				}
			} else {
				x.FailSig("save", "%v", snapErr)
			}
			min := 0 // accessors are read in order: each value is that of a moment not before the last
			for _, g := range got {
				for k, v := range g {
					ok := false
					for i := min; i < len(states) && !ok; i++ {
						var types []string
						for t := range states[i].types {
							types = append(types, t)
						}
						sort.Strings(types)
						if types == nil {
							types = []string{}
						}
						w := []interface{}{types, states[i].types["ta"], states[i].types["tb"], states[i].total, states[i].latest}[k]
						if ok = reflect.DeepEqual(v, w); ok && k < 3 {
							min = i
						}
					}
					if !ok {
						x.FailSig("read", "accessor %d returned %v: no moment from %d on", k, v, min)
						return
					}
				}
			}
			x.Observe("%v %v", at, got)
		}}
}

// memSnapshots keeps a snapshot as the disk store does.
type memSnapshots struct {
	b   []byte
	err error
}

func (m *memSnapshots) Load(p projection.SnapshotProjection) error {
	if m.b == nil {
		return os.ErrNotExist
	}
	return p.LoadFromSnapshot(bytes.NewReader(m.b))
}

func (m *memSnapshots) Save(p projection.SnapshotProjection) error {
	if m.err != nil {
		return m.err
	}
	var b bytes.Buffer
	err := p.SaveSnapshot(&b)
	m.b = b.Bytes()
	return err
}

// apiStatsHarness: the statistics of the HTTP API across restarts.
func apiStatsHarness(kind string) *explore.Harness {
	depth := explore.Tier(4, 6)
	if kind == "mem" {
		depth++
	}
	ops := []string{"save ta", "save 2 tb", "save ta tb", "delete ta!1", "delete tb!1", "restart", "restart without snapshot", "restart with a snapshot cut in half", "restart, snapshot cannot be saved"}
	return &explore.Harness{Name: "api-" + kind, ExecsPerGC: 50, Cfg: ctl.Config{Background: bgLevelDB, MaxSteps: 5000000},
		Doc: fmt.Sprintf("every sequence of %d of %d operations (saves, deletions, and restarts of the HTTP API with its snapshot, without, with a broken one, or with one that cannot be saved; over LevelDB the store is reopened as well): after every operation the listed aggregate types and totals are those of the snapshot plus every event after its position", depth, len(ops)),
		Body: func(x *ctl.X) {
			e := openStore(x, kind, false)
			defer func() { e.Close() }()
			snaps := &memSnapshots{}
			var api http.Handler
			var st counts    // what the statistics should be
			var snap *counts // what the snapshot holds
			var store []*rangedb.Record
			gsn := uint64(0)
			nEv := map[string]int{}
			start := func(mode int) {
				if kind != "mem" && api != nil {
					e.Close()
					x.Quiesce()
					e.Disk.locked = false
					if err := e.openLDB(); err != nil {
						x.FailSig("reopen", "%v", err)
						return
					}
				}
				switch mode {
				case 1:
					snaps.b, snap = nil, nil
				case 2:
					snaps.b, snap = snaps.b[:len(snaps.b)/2], nil
				case 3:
					snaps.err = errRead
				}
				a, err := rangedbapi.New(rangedbapi.WithStore(e.St), rangedbapi.WithSnapshotStore(snaps), rangedbapi.WithBaseUri("http://h"))
				if err != nil {
					x.FailSig("start", "%v", err)
					return
				}
				api = a
				st = counts{}
				if snap != nil {
					st = *snap
				}
				for _, r := range store {
					if r.GlobalSequenceNumber > st.latest || st.total == 0 {
						st = st.add(r)
					}
				}
				if snaps.err == nil {
					c := st
					snap = &c
				}
				snaps.err = nil
			}
			check := func(what string) bool {
				x.Quiesce()
				type item struct {
					Name        string `json:"name"`
					TotalEvents uint64 `json:"totalEvents"`
				}
				var got struct {
					Data        []item `json:"data"`
					TotalEvents uint64 `json:"totalEvents"`
				}
				a := serveHTTP(api, httptest.NewRequest("GET", "/list-aggregate-types", nil), -1)
				if err := json.Unmarshal(a.body, &got); err != nil || a.code != 200 {
					x.FailSig("list", "after %s: %d %s", what, a.code, a.body)
					return false
				}
				types := map[string]uint64{}
				for _, d := range got.Data {
					types[d.Name] = d.TotalEvents
				}
				if len(types) != len(got.Data) || got.TotalEvents != st.total || js(types) != js(st.types) && len(types)+len(st.types) > 0 {
					x.FailSig("counts", "after %s: the API lists %s, want %v", what, a.body, st)
					return false
				}
				return true
			}
			trail := ""
			start(0)
			for i := 0; i < depth && !x.Failed() && check("start"+trail); i++ {
				c := x.ChooseF(len(ops), 0, func(i int) string { return ops[i] })
				trail += ", " + ops[c]
				save := func(stream string, n int) {
					var ers []*rangedb.EventRecord
					for j := 0; j < n; j++ {
						ers = append(ers, &rangedb.EventRecord{Event: &Ev{Typ: stream[:2], ID: "1", P: fmt.Sprint(nEv)}})
					}
					if _, err := e.St.Save(bgCtx, stream, ers...); err != nil {
						x.FailSig("save", "after start%s: %v", trail, err)
						return
					}
					for j := 0; j < n; j++ {
						gsn++
						nEv[stream]++
						r := &rangedb.Record{AggregateType: stream[:2], StreamName: stream, GlobalSequenceNumber: gsn}
						store = append(store, r)
						st = st.add(r)
					}
				}
				switch {
				case c == 0:
					save("ta!1", 1)
				case c == 1:
					save("tb!1", 2)
				case c == 2:
					save("ta!1", 1)
					save("tb!1", 1)
				case c <= 4:
					stream := []string{"ta!1", "tb!1"}[c-3]
					if nEv[stream] == 0 {
						return // (nothing new)
					}
					if err := e.St.OptimisticDeleteStream(bgCtx, uint64(nEv[stream]), stream); err != nil {
						x.FailSig("delete", "after start%s: %v", trail, err)
						return
					}
					nEv[stream] = 0
					var kept []*rangedb.Record
					for _, r := range store {
						if r.StreamName != stream {
							kept = append(kept, r)
						}
					}
					store = kept
				default:
					start(c - 5)
				}
			}
			if !x.Failed() {
				check("start" + trail)
			}
			x.Observe("%v", st)
		}}
}

func init() {
	explore.Register(&explore.Property{ID: "C24", Level: "model_checking", Rule: concRule + "; " + seqRule, Assumptions: append([]string{
		"a crash of a snapshot save happens between statements of pkg/projection or between written pieces, and a written file may lose any tail; the order of file operations is kept by the file system",
	}, concAssume...),
		Harnesses: []*explore.Harness{foldHarness(), unreadableHarness(), saveCrashHarness(), statConcHarness(), apiStatsHarness("mem"), apiStatsHarness("ldb")}})
}
