package h

import (
	"fmt"
	"strings"

	"github.com/inklabs/rangedb"

	"verifmc/ctl"
	"verifmc/explore"
)

// allReads is everything that can be read of the streams and types.
func allReads(st rangedb.Store, streams, types []string, text func([]Rec) string) string {
	var b strings.Builder
	show := func(what string, it rangedb.RecordIterator) {
		l, err := drain(it)
		fmt.Fprintf(&b, "%s: %s %s\n", what, text(l), errKind(err))
	}
	show("all", st.Events(bgCtx, 0))
	for _, s := range streams {
		show("stream "+s, st.EventsByStream(bgCtx, 0, s))
		n, err := st.TotalEventsInStream(bgCtx, s)
		fmt.Fprintf(&b, "total %s: %d %s\n", s, n, errKind(err))
	}
	for _, t := range types {
		show("type "+t, st.EventsByAggregateTypes(bgCtx, 0, t))
	}
	show("types", st.EventsByAggregateTypes(bgCtx, 0, types...))
	return b.String()
}

// undecodableHarness: a delete or save while stored records cannot be decoded.
func undecodableHarness(kind string, deletes bool) *explore.Harness {
	ops := []string{"save", "save 2", "optimistic save", "optimistic save 2", "save to another stream", "optimistic save, first of a stream"}
	name, what := "undecodable-save-", "saves of 1 or 2 events, optimistic or not"
	if deletes {
		ops = []string{"delete", "delete of another stream"}
		name, what = "undecodable-", "deletes of streams"
	}
	streams, types := []string{"ta!1", "ta!2", "tb!1", "ta!3"}, []string{"ta", "tb"}
	return &explore.Harness{Name: name + kind, Cfg: ctl.Config{Background: bgLevelDB},
		Doc: what + " in a store of three streams with 1..3 events each, interleaved, while one of the records cannot be decoded, or the first..sixth decoding during the call fails: it takes effect fully or fails and changes nothing in any view, read once decoding works again; then it succeeds",
		Body: func(x *ctl.X) {
			n := 1 + x.ChooseF(3, 0, func(i int) string { return fmt.Sprint(i+1, " events per stream") })
			op := x.ChooseF(len(ops), 0, func(i int) string { return ops[i] })
			at := x.ChooseF(3*n+6, 0, func(i int) string {
				if i >= 3*n {
					return fmt.Sprint("decoding ", i-3*n+1, " fails")
				}
				return fmt.Sprint("record ", i+1, " is undecodable")
			})
			e := openStore(x, kind, false)
			defer e.Close()
			for i := 0; i < n; i++ {
				for j, s := range streams[:3] {
					ev := &Ev{Typ: s[:2], ID: s[3:], P: fmt.Sprintf("r%d.", i*3+j)}
					if _, err := e.St.Save(bgCtx, s, &rangedb.EventRecord{Event: ev}); err != nil {
						x.Fail("save: %v", err)
						return
					}
				}
			}
			x.Quiesce()
			before := allReads(e.St, streams, types, showRecs)
			calls := 0
			fail := func(b []byte) error {
				calls++
				if at >= 3*n && calls == at-3*n+1 || at < 3*n && strings.Contains(string(b), fmt.Sprintf("r%d.", at)) {
					return errUndecodable
				}
				return nil
			}
			do := func() (err error) {
				ev := &Ev{Typ: "ta", ID: "1", P: "new"}
				ers := []*rangedb.EventRecord{{Event: ev}}
				if strings.HasSuffix(ops[op], "2") {
					ers = append(ers, ers[0])
				}
				switch ops[op] {
				case "delete":
					return e.St.OptimisticDeleteStream(bgCtx, uint64(n), "ta!1")
				case "delete of another stream":
					return e.St.OptimisticDeleteStream(bgCtx, uint64(n), "tb!1")
				case "save", "save 2":
					_, err = e.St.Save(bgCtx, "ta!1", ers...)
				case "optimistic save", "optimistic save 2":
					_, err = e.St.OptimisticSave(bgCtx, uint64(n), "ta!1", ers...)
				case "save to another stream":
					ev.ID = "2"
					_, err = e.St.Save(bgCtx, "ta!2", ers...)
				default:
					ev.ID = "3"
					_, err = e.St.OptimisticSave(bgCtx, 0, "ta!3", ers...)
				}
				return
			}
			e.Ser.failDes = fail
			err := do()
			e.Ser.failDes = nil
			after := allReads(e.St, streams, types, showRecs)
			if err != nil {
				if after != before {
					x.FailSig("changed", "%s that failed (%v) changed what can be read from\n%sto\n%s", ops[op], err, before, after)
				}
				if err := do(); err != nil {
					x.FailSig("again", "%s fails again once everything can be decoded: %v", ops[op], err)
				}
			}
			after = allReads(e.St, streams, types, contents)
			// What a store that was never disturbed shows.
			kept := e.St
			c := openStore(x, kind, false)
			for i := 0; i < n; i++ {
				for j, s := range streams[:3] {
					_, _ = c.St.Save(bgCtx, s, &rangedb.EventRecord{Event: &Ev{Typ: s[:2], ID: s[3:], P: fmt.Sprintf("r%d.", i*3+j)}})
				}
			}
			e.St = c.St
			if err := do(); err != nil {
				x.FailSig("do", "%s: %v", ops[op], err)
			}
			want := allReads(c.St, streams, types, contents)
			e.St = kept
			c.Close()
			if after != want {
				x.FailSig("partial", "%s (with %v at first) leaves\n%swant\n%s", ops[op], err, after, want)
			}
			x.Observe("%s %d %v", ops[op], calls, err)
		}}
}

// contents are records without what differs between stores with the same history.
func contents(l []Rec) string {
	var b strings.Builder
	for _, r := range l {
		fmt.Fprintf(&b, " %s/%d:%s", r.Stream, r.SSN, payload(r))
	}
	return b.String()
}
