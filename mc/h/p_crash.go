package h

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"github.com/syndtr/goleveldb/leveldb/storage"

	"verifmc/ctl"
	"verifmc/explore"
)

// aev is one event of an abstract state.
type aev struct{ p, stream, typ string }

// astate is what a store may contain.
type astate []aev

func (a astate) has(p string) bool {
	for _, e := range a {
		if e.p == p {
			return true
		}
	}
	return false
}

func (a astate) stream(s string) int {
	n := 0
	for _, e := range a {
		if e.stream == s {
			n++
		}
	}
	return n
}

func (a astate) String() string {
	var s []string
	for _, e := range a {
		s = append(s, e.p+"@"+e.stream)
	}
	return "[" + strings.Join(s, " ") + "]"
}

func (a astate) equal(b astate) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// dOp is an operation on the LevelDB store with its abstract effect.
type dOp struct {
	name   string
	stream string
	n      int  // events saved
	del    bool // delete
	exp    int  // 0 none, 1 the right expectation, 2 one too many
	fail   bool // the last event cannot be serialized
	big    int  // extra payload bytes
	reopen bool
}

var dOps = []dOp{
	{name: "save1 ta!1", stream: "ta!1", n: 1},
	{name: "save3 tb!1", stream: "tb!1", n: 3},
	{name: "osave2 ta!1", stream: "ta!1", n: 2, exp: 1},
	{name: "osave2+1 ta!1", stream: "ta!1", n: 2, exp: 2},
	{name: "save ok,ok,fail ta!1", stream: "ta!1", n: 3, fail: true},
	{name: "del ta!1", stream: "ta!1", del: true, exp: 1},
	{name: "del+1 ta!1", stream: "ta!1", del: true, exp: 2},
	{name: "save2 with 70 kB each ta!2", stream: "ta!2", n: 2, big: 70000},
	{name: "reopen", reopen: true},
}

// dsys drives one LevelDB store and keeps the set of states it may be in.
type dsys struct {
	*Env
	poss     []astate // possible contents
	gsn      map[string]uint64
	byGSN    map[uint64]string
	n        int
	trail    []string
	creating bool // the crash hit the first creation of the store
	fragile  bool // after an injected fault: calls may fail
}

func newDsys(x *ctl.X) *dsys {
	return &dsys{Env: openStore(x, "ldb", false), poss: []astate{nil}, gsn: map[string]uint64{}, byGSN: map[uint64]string{}}
}

func (d *dsys) bad(sig, format string, args ...interface{}) {
	d.X.FailSig(sig, "after "+strings.Join(d.trail, ", ")+": "+format, args...)
}

// run performs o; under a fault the outcome may be an error. It updates the
// possible states: after an unexplained error the operation may have happened.
func (d *dsys) run(o dOp, mayFail bool) (acked bool) {
	if o.reopen {
		err := d.stop()
		if err != nil && !mayFail {
			d.bad("error", "Stop: %v", err)
		}
		d.X.Quiesce()
		d.Disk.locked = false
		if err := d.openLDB(); err != nil {
			if !mayFail {
				d.bad("reopen", "opening the store failed: %v", err)
			}
			d.stop = nil
			return false
		}
		return true
	}
	// After an earlier fault several contents are possible; the expectation is taken from the first.
	cur := d.poss[0].stream(o.stream)
	exp := uint64(cur)
	if o.exp == 2 {
		exp++
	}
	var evs []aev
	var err error
	var num uint64
	if o.del {
		err = d.St.OptimisticDeleteStream(bgCtx, exp, o.stream)
	} else {
		var ers []*rangedb.EventRecord
		for i := 0; i < o.n; i++ {
			d.n++
			p := fmt.Sprintf("e%d", d.n)
			if o.fail && i == o.n-1 {
				p = "FAIL" + p
			}
			if o.big > 0 {
				p += strings.Repeat("x", o.big)
			}
			evs = append(evs, aev{p, o.stream, o.stream[:2]})
			ers = append(ers, &rangedb.EventRecord{Event: &Ev{Typ: o.stream[:2], ID: idOf(o.stream), P: p}})
		}
		if o.exp == 0 {
			num, err = d.St.Save(bgCtx, o.stream, ers...)
		} else {
			num, err = d.St.OptimisticSave(bgCtx, exp, o.stream, ers...)
		}
	}
	d.X.Logf("%s = %d, %v", o.name, num, err)
	var next []astate
	for _, s := range d.poss {
		n := s.stream(o.stream)
		should := !o.fail && (o.exp == 0 || uint64(n) == exp) && !(o.del && n == 0)
		var after astate
		if o.del {
			for _, e := range s {
				if e.stream != o.stream {
					after = append(after, e)
				}
			}
		} else {
			after = append(append(after, s...), evs...)
		}
		if err == nil {
			if should && (o.del || num == uint64(n+o.n)) {
				next = append(next, after)
			}
			continue
		}
		// An error: an expected one leaves the state alone.
		var u *rangedberror.UnexpectedSequenceNumber
		switch {
		case errors.As(err, &u):
			if o.exp > 0 && uint64(n) == u.ActualSequenceNumber && exp != uint64(n) {
				next = append(next, s)
			}
		case errors.Is(err, rangedb.ErrStreamNotFound):
			if o.del && n == 0 {
				next = append(next, s)
			}
		case o.fail:
			next = append(next, s)
		case mayFail || d.fragile:
			next = append(next, s)
			if should {
				next = append(next, after)
			}
		}
	}
	if len(next) == 0 {
		d.bad("result", "%s = %d, %v; possible contents before: %v", o.name, num, err, d.poss)
		return false
	}
	d.poss = next
	return err == nil
}

// match reads every view and narrows the possible states to those that match.
// Under a fault or in a fragile store reads may fail, but not lie.
func (d *dsys) match(mayFail bool) {
	all, err := drain(d.St.Events(bgCtx, 0))
	if err != nil {
		if !mayFail {
			d.bad("read", "reading all events: %v", err)
		}
	} else {
		got := abstract(all)
		ok := false
		for _, s := range d.poss {
			if s.equal(got) {
				ok = true
				if !mayFail {
					d.poss = []astate{s}
				}
				break
			}
		}
		if !ok {
			d.bad("content", "the store contains %s, possible are %s", shorten(got), shortenAll(d.poss))
			return
		}
		d.numbers(all)
	}
	var types []string
	for _, sel := range [][]string{{"ta"}, {"tb"}, {"ta", "tb"}} {
		types = sel
		recs, terr := drain(d.St.EventsByAggregateTypes(bgCtx, 0, types...))
		if terr != nil {
			if !mayFail {
				d.bad("read", "reading types %v: %v", types, terr)
			}
			continue
		}
		d.oneOf(fmt.Sprint("types ", types), recs, func(e aev) bool { return inSet(e.typ, types) })
		if err == nil && !recsEqual(recs, filter(all, func(r Rec) bool { return inSet(r.Typ, types) })) {
			d.bad("views", "types %v: %s, all events: %s", types, shortRecs(recs), shortRecs(all))
		}
	}
	for _, st := range []string{"ta!1", "ta!2", "tb!1"} {
		recs, serr := drain(d.St.EventsByStream(bgCtx, 0, st))
		if errors.Is(serr, rangedb.ErrStreamNotFound) {
			serr = nil
			if len(recs) > 0 {
				d.bad("views", "stream %s: records and not found", st)
			}
		}
		if serr != nil {
			if !mayFail {
				d.bad("read", "reading stream %s: %v", st, serr)
			}
			continue
		}
		d.oneOf("stream "+st, recs, func(e aev) bool { return e.stream == st })
		for i, r := range recs {
			if r.SSN != uint64(i+1) {
				d.bad("views", "stream %s: %s", st, shortRecs(recs))
			}
		}
		if err == nil && !recsEqual(recs, filter(all, func(r Rec) bool { return r.Stream == st })) {
			d.bad("views", "stream %s: %s, all events: %s", st, shortRecs(recs), shortRecs(all))
		}
		tot, terr := d.St.TotalEventsInStream(bgCtx, st)
		if terr == nil && tot != uint64(len(recs)) || terr != nil && !mayFail {
			d.bad("views", "stream %s: total %d, %v; %d records", st, tot, terr, len(recs))
		}
	}
}

func shorten(a astate) string {
	var b astate
	for _, e := range a {
		if len(e.p) > 10 {
			e.p = e.p[:10]
		}
		b = append(b, e)
	}
	return b.String()
}

func shortenAll(a []astate) string {
	var s []string
	for _, x := range a {
		s = append(s, shorten(x))
	}
	return strings.Join(s, " or ")
}

func (d *dsys) oneOf(what string, recs []Rec, sel func(aev) bool) {
	got := abstract(recs)
	for _, s := range d.poss {
		var w astate
		for _, e := range s {
			if sel(e) {
				w = append(w, e)
			}
		}
		if w.equal(got) {
			return
		}
	}
	d.bad("content", "%s: %s, possible contents are %s", what, shorten(got), shortenAll(d.poss))
}

func abstract(recs []Rec) astate {
	var a astate
	for _, r := range recs {
		a = append(a, aev{payload(r), r.Stream, r.Typ})
	}
	return a
}

// numbers checks that global sequence numbers increase and are never reused.
func (d *dsys) numbers(all []Rec) {
	last := uint64(0)
	for _, r := range all {
		p := payload(r)
		if r.GSN <= last {
			d.bad("numbers", "not increasing: %s", shortRecs(all))
		}
		last = r.GSN
		if g, ok := d.gsn[p]; ok && g != r.GSN {
			d.bad("numbers", "an event was renumbered from %d to %d", g, r.GSN)
		}
		if q, ok := d.byGSN[r.GSN]; ok && q != p {
			d.bad("numbers", "number %d was used twice", r.GSN)
		}
		d.gsn[p], d.byGSN[r.GSN] = r.GSN, p
	}
}

// at replaces the device and reopens the store on it.
func (d *dsys) at(disk *Disk) bool {
	d.Disk = disk
	if err := d.openLDB(); err != nil {
		if d.creating {
			d.bad("create-crash", "a crash while the store was created for the first time left it unopenable: %v", err)
			return false
		}
		if disk.lostMeta && disk.opening {
			d.bad("manifest-unsynced", "a crash lost bytes of a new manifest that CURRENT already named: %v", err)
			return false
		}
		d.bad("reopen", "opening the store after the crash failed: %v", err)
		return false
	}
	return true
}

// tails enumerates how much of each unsynced file tail survives.
func tails(ops []dop, n int, full bool) []func(storage.FileDesc, []byte) int {
	im := crashImage(ops, n, nil)
	_ = im
	r := []func(storage.FileDesc, []byte) int{
		func(_ storage.FileDesc, u []byte) int { return 0 },
		func(_ storage.FileDesc, u []byte) int { return len(u) },
	}
	unsynced := false
	crashImage(ops, n, func(_ storage.FileDesc, u []byte) int {
		if len(u) > 0 {
			unsynced = true
		}
		return len(u)
	})
	if !unsynced {
		return r[:1]
	}
	r = append(r, func(_ storage.FileDesc, u []byte) int { return len(u) / 2 })
	if full {
		r = append(r,
			func(_ storage.FileDesc, u []byte) int { return max0(len(u) - 1) },
			func(_ storage.FileDesc, u []byte) int { return max0(len(u) - 8) },
			func(_ storage.FileDesc, u []byte) int {
				if len(u) > 0 {
					return 1
				}
				return 0
			},
			// only one kind of file keeps its tail
			func(fd storage.FileDesc, u []byte) int {
				if fd.Type == storage.TypeJournal {
					return len(u)
				}
				return 0
			},
			func(fd storage.FileDesc, u []byte) int {
				if fd.Type == storage.TypeManifest {
					return len(u)
				}
				return 0
			})
	}
	return r
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

const crashShards = 8

type ack struct {
	at   int // length of the device journal when the operation returned
	st   astate
	desc string
}

// crashHarness crashes after every device operation of every operation sequence.
func crashHarness(name string, nested bool, quick, thorough int) *explore.Harness {
	return &explore.Harness{Name: name, ExecsPerGC: 2,
		Doc: fmt.Sprintf("every sequence of %d (thorough %d) out of %d operations (saves, optimistic saves, deletes, rejected ones, large batches, reopening); a crash before every device operation, with 3 to 8 survival patterns of unsynced bytes (nested: %v, a second crash before every device operation of the recovery); after reopening: exactly the acknowledged effects plus all or nothing of the operation in flight, views agree, numbers continue, a save works and survives another reopening", quick, thorough, len(dOps), nested),
		Cfg: ctl.Config{Background: bgLevelDB, MaxSteps: 50000000},
		Body: func(x *ctl.X) {
			depth := explore.Tier(quick, thorough)
			x.Soft("manifest-unsynced")
			shard := 0
			last := 0 // crashes before this operation are explored in a sequence with another rest
			journalNew = true
			d := newDsys(x)
			journalNew = false
			x.Quiesce()
			var acks []ack
			acks = append(acks, ack{0, nil, "nothing"}, ack{len(d.Disk.ops), nil, "open"})
			for i := 0; i < depth; i++ {
				oi := x.ChooseF(len(dOps), 0, func(i int) string { return dOps[i].name })
				o := dOps[oi]
				if oi != 0 {
					last = i
				}
				d.trail = append(d.trail, o.name)
				d.run(o, false)
				x.Quiesce()
				if x.Failed() {
					return
				}
				d.match(false)
				if x.Failed() {
					return
				}
				acks = append(acks, ack{len(d.Disk.ops), d.poss[0], o.name})
			}
			shard = x.ChooseF(crashShards, 0, func(i int) string { return fmt.Sprintf("crash points %d mod %d", i, crashShards) })
			if x.Replaying() {
				d.Close()
				return
			}
			ops := d.Disk.ops
			gsn := d.gsn
			d.Close()
			x.Quiesce()
			// What closing wrote is part of the history; crashes within it count too.
			ops = d.Disk.ops
			trail := d.trail
			d.Disk.journal = false
			cases := 0
			from := acks[1+last].at
			if last > 0 {
				from++
			}
			for n := from; n <= len(ops) && !x.Failed(); n++ {
				if n%crashShards != shard {
					continue
				}
				// the last operation acknowledged before the crash, and the one in flight
				k := 0
				for i := range acks {
					if acks[i].at <= n {
						k = i
					}
				}
				poss := []astate{acks[k].st}
				if k+1 < len(acks) && acks[k].at < n {
					poss = append(poss, acks[k+1].st)
				}
				for ti, tail := range tails(ops, n, explore.Thorough() || !nested) {
					if x.Failed() {
						return
					}
					cases++
					if cases%40 == 0 {
						x.GC()
					}
					img := crashImage(ops, n, tail)
					c := &dsys{Env: &Env{X: x, Kind: "ldb", Ser: d.Ser, clk: d.clk, uid: d.uid}, poss: append([]astate(nil), poss...), gsn: copyGSN(gsn, poss), byGSN: map[uint64]string{}, n: 1000 + n*10 + ti}
					// numbers that acknowledged events had are taken for good
					for i := 0; i <= k; i++ {
						for _, e := range acks[i].st {
							c.byGSN[gsn[e.p]] = e.p
						}
					}
					c.trail = append(append([]string(nil), trail...), fmt.Sprintf("crash before device operation %d of %d (%s), tail pattern %d", n, len(ops), opName(ops, n), ti))
					img.journal = nested
					if !c.at(img) {
						continue
					}
					c.recovered(nested)
				}
			}
			x.Count(cases)
			x.Observe("%s: %d device operations", strings.Join(trail, ","), len(ops))
		}}
}

func opName(ops []dop, n int) string {
	if n >= len(ops) {
		return "end"
	}
	return fmt.Sprintf("%c %v", ops[n].kind, ops[n].fd)
}

func copyGSN(gsn map[string]uint64, poss []astate) map[string]uint64 {
	m := map[string]uint64{}
	for _, s := range poss {
		for _, e := range s {
			m[e.p] = gsn[e.p]
		}
	}
	return m
}

// recovered checks a store reopened after a crash.
func (c *dsys) recovered(nested bool) {
	x := c.X
	rec := c.Disk.ops
	c.match(false)
	if x.Failed() {
		return
	}
	if nested {
		// a second crash during recovery, before anything else was done
		c.X.Quiesce()
		rec = c.Disk.ops
		base := c.Disk
		_ = base
	}
	c.Disk.journal = false
	c.trail = append(c.trail, "recovered")
	for _, o := range []dOp{{name: "save2 ta!1", stream: "ta!1", n: 2}, {name: "save1 tb!1", stream: "tb!1", n: 1, exp: 1}} {
		c.trail = append(c.trail, o.name)
		if !c.run(o, false) && !x.Failed() {
			c.bad("unusable", "%s failed", o.name)
		}
		if x.Failed() {
			return
		}
	}
	c.match(false)
	c.run(dOp{reopen: true}, false)
	if x.Failed() {
		return
	}
	c.trail = append(c.trail, "reopen")
	c.match(false)
	_ = rec
	c.Close()
	x.Quiesce()
}

// createHarness crashes while the store is created for the first time.
func createHarness() *explore.Harness {
	return &explore.Harness{Name: "create", ExecsPerGC: 2,
		Doc: "a crash before every device operation of the first opening of a store: it opens afterwards, is empty and works",
		Cfg: ctl.Config{Background: bgLevelDB},
		Body: func(x *ctl.X) {
			journalNew = true
			d := newDsys(x)
			journalNew = false
			x.Quiesce()
			d.Close()
			x.Quiesce()
			ops := d.Disk.ops
			for n := 0; n <= len(ops); n++ {
				for ti, tail := range tails(ops, n, true) {
					c := &dsys{Env: &Env{X: x, Kind: "ldb", Ser: d.Ser, clk: d.clk, uid: d.uid}, poss: []astate{nil}, gsn: map[string]uint64{}, byGSN: map[uint64]string{}, creating: true}
					c.trail = []string{fmt.Sprintf("crash before device operation %d of %d (%s) of the first opening, tail pattern %d", n, len(ops), opName(ops, n), ti)}
					x.Count(1)
					if c.at(crashImage(ops, n, tail)) {
						c.recovered(false)
					}
				}
			}
		}}
}

// nestedHarness crashes a second time, during recovery.
func nestedHarness(quick, thorough int) *explore.Harness {
	return &explore.Harness{Name: "crash-in-recovery", ExecsPerGC: 1,
		Doc: fmt.Sprintf("every sequence of %d (thorough %d) operations, a crash before every device operation, and a second crash before every device operation of the recovery (unsynced bytes lost, kept or halved): the same contents as after the first crash", quick, thorough),
		Cfg: ctl.Config{Background: bgLevelDB, MaxSteps: 50000000},
		Body: func(x *ctl.X) {
			depth := explore.Tier(quick, thorough)
			x.Soft("manifest-unsynced")
			shard := 0
			last := 0 // crashes before this operation are explored in a sequence with another rest
			journalNew = true
			d := newDsys(x)
			journalNew = false
			x.Quiesce()
			acks := []ack{{0, nil, "nothing"}, {len(d.Disk.ops), nil, "open"}}
			for i := 0; i < depth; i++ {
				oi := x.ChooseF(len(dOps), 0, func(i int) string { return dOps[i].name })
				o := dOps[oi]
				if oi != 0 {
					last = i
				}
				d.trail = append(d.trail, o.name)
				d.run(o, false)
				x.Quiesce()
				d.match(false)
				if x.Failed() {
					return
				}
				acks = append(acks, ack{len(d.Disk.ops), d.poss[0], o.name})
			}
			d.Close()
			x.Quiesce()
			shard = x.ChooseF(crashShards, 0, func(i int) string { return fmt.Sprintf("crash points %d mod %d", i, crashShards) })
			if x.Replaying() {
				return
			}
			ops := d.Disk.ops
			cases := 0
			from := acks[1+last].at
			if last > 0 {
				from++
			}
			for n := from; n <= len(ops) && !x.Failed(); n++ {
				if n%crashShards != shard {
					continue
				}
				k := 0
				for i := range acks {
					if acks[i].at <= n {
						k = i
					}
				}
				poss := []astate{acks[k].st}
				if k+1 < len(acks) && acks[k].at < n {
					poss = append(poss, acks[k+1].st)
				}
				for ti, tail := range tails(ops, n, false) {
					img := crashImage(ops, n, tail)
					start := len(ops[:n])
					_ = start
					c := &dsys{Env: &Env{X: x, Kind: "ldb", Ser: d.Ser, clk: d.clk, uid: d.uid}, poss: poss, gsn: map[string]uint64{}, byGSN: map[uint64]string{}, n: 5000}
					c.trail = append(append([]string(nil), d.trail...), fmt.Sprintf("crash before device operation %d of %d (%s), tail pattern %d", n, len(ops), opName(ops, n), ti))
					first := imageOps(img)
					img.journal = true
					img.ops = append([]dop(nil), first...)
					if !c.at(img) {
						continue
					}
					x.Quiesce()
					c.match(false)
					if x.Failed() {
						return
					}
					rops := img.ops
					want := c.poss
					c.Close()
					x.Quiesce()
					for m := len(first); m <= len(rops); m++ {
						for tj, tail2 := range tails(rops, m, false) {
							cases++
							if cases%40 == 0 {
								x.GC()
							}
							c2 := &dsys{Env: &Env{X: x, Kind: "ldb", Ser: d.Ser, clk: d.clk, uid: d.uid}, poss: want, gsn: map[string]uint64{}, byGSN: map[uint64]string{}, n: 9000}
							c2.trail = append(append([]string(nil), c.trail...), fmt.Sprintf("second crash before device operation %d of %d of the recovery (%s), tail pattern %d", m-len(first), len(rops)-len(first), opName(rops, m), tj))
							if !c2.at(crashImage(rops, m, tail2)) {
								continue
							}
							c2.match(false)
							if x.Failed() {
								return
							}
							c2.trail = append(c2.trail, "save1 ta!1")
							c2.run(dOp{name: "save1 ta!1", stream: "ta!1", n: 1}, false)
							c2.match(false)
							c2.Close()
							x.Quiesce()
							if x.Failed() {
								return
							}
						}
					}
				}
			}
			x.Count(cases)
			x.Observe("%s", strings.Join(d.trail, ","))
		}}
}

// imageOps turns a device image into operations that build it.
func imageOps(d *Disk) []dop {
	var r []dop
	for fd, f := range d.files {
		r = append(r, dop{kind: 'c', fd: fd}, dop{kind: 'w', fd: fd, data: append([]byte(nil), f.data...)}, dop{kind: 's', fd: fd})
	}
	if d.hasMeta {
		r = append(r, dop{kind: 'm', fd: d.meta})
	}
	return r
}

// faultHarness fails every single device operation of the last operation.
func faultHarness(quick, thorough int) *explore.Harness {
	modes := []string{"fails once", "fails once, half of it written", "keeps failing until the end of the operation"}
	probe := append([]dOp{}, dOps...)
	probe = append(probe, dOp{name: "read everything"})
	return &explore.Harness{Name: "fault", ExecsPerGC: 2,
		Doc: fmt.Sprintf("every sequence of %d (thorough %d) operations, freshly reopened or not, then one of %d more operations, reads or reopening, of which every single device operation %q; the operation reports an error or succeeds, reads in the same process are right or fail, an operation after it is never acknowledged falsely, and after reopening exactly the acknowledged operations plus all or nothing of failed ones are visible", quick, thorough, len(probe), modes),
		Cfg: ctl.Config{Background: bgLevelDB, MaxSteps: 50000000},
		Body: func(x *ctl.X) {
			depth := explore.Tier(quick, thorough)
			var seq []dOp
			for i := 0; i < depth; i++ {
				seq = append(seq, dOps[x.ChooseF(len(dOps), 0, func(i int) string { return dOps[i].name })])
			}
			fresh := x.ChooseF(2, 0, func(i int) string { return []string{"as is", "freshly reopened"}[i] }) == 1
			target := probe[x.ChooseF(len(probe), 0, func(i int) string { return "fault in " + probe[i].name })]
			mode := x.ChooseF(len(modes), 0, func(i int) string { return modes[i] })
			cases := 0
			hit := true
			for f := 1; hit && !x.Failed() && f < 400; f++ {
				d := newDsys(x)
				for _, o := range seq {
					d.trail = append(d.trail, o.name)
					d.run(o, false)
				}
				d.match(false)
				if fresh {
					d.trail = append(d.trail, "reopen")
					d.run(dOp{reopen: true}, false)
				}
				x.Quiesce()
				if x.Failed() {
					return
				}
				ctx, cancel := context.WithCancel(bgCtx)
				var delivered []string
				sub := d.St.AllEventsSubscription(ctx, 10, rangedb.RecordSubscriberFunc(func(r *rangedb.Record) {
					delivered = append(delivered, payload(toRec(r)))
				}))
				if err := sub.Start(); err != nil {
					d.bad("subscription", "%v", err)
				}
				x.Quiesce()
				d.Disk.armed, d.Disk.failAt, d.Disk.count, d.Disk.torn, d.Disk.sticky = true, f, 0, mode == 1, mode == 2
				d.trail = append(d.trail, fmt.Sprintf("%s with device operation %d failing (%s)", target.name, f, modes[mode]))
				open := true
				if target.stream == "" && !target.reopen {
					d.match(true)
				} else {
					open = d.run(target, true) || !target.reopen
				}
				x.Quiesce()
				hit = d.Disk.failed != ""
				d.trail[len(d.trail)-1] += " [" + d.Disk.failed + "]"
				d.Disk.armed = false
				if x.Failed() {
					return
				}
				cases++
				d.fragile = true
				if open {
					d.match(true)
					o := dOp{name: "save1 ta!1", stream: "ta!1", n: 1}
					d.trail = append(d.trail, o.name)
					d.run(o, true)
					if x.Failed() {
						return
					}
					d.match(true)
					if x.Failed() {
						return
					}
				}
				d.trail = append(d.trail, "reopen")
				if open {
					if err := d.stop(); err != nil {
						x.Logf("stop: %v", err)
					}
				}
				x.Quiesce()
				d.Disk.locked = false
				if err := d.openLDB(); err != nil {
					d.bad("reopen", "opening the store after the fault cleared: %v", err)
					return
				}
				d.fragile = false
				d.match(false)
				cancel()
				for _, p := range delivered {
					if !d.poss[0].has(p) {
						d.bad("phantom", "a subscriber received the event %s, which was never stored", p)
					}
				}
				if x.Failed() {
					return
				}
				o := dOp{name: "save2 tb!1", stream: "tb!1", n: 2}
				d.trail = append(d.trail, o.name)
				if !d.run(o, false) && !x.Failed() {
					d.bad("unusable", "save after reopening failed")
				}
				d.match(false)
				d.Close()
				x.Quiesce()
			}
			x.Count(cases)
			x.Observe("%v %s %d", fresh, target.name, cases)
		}}
}

var _ = context.Background
var _ = time.Now

func init() {
	explore.Register(&explore.Property{ID: "C13", Level: "model_checking",
		Rule:        "one execution per operation sequence, in which every crash point and tail pattern is tried (counted as cases); distinct when the sequence or its number of device operations differs",
		Assumptions: []string{"the device keeps synced bytes, any prefix of unsynced bytes of each file, and completed creations, renames and removals of files in order", "goleveldb is explored as it is (its own durability is part of what is checked)"},
		Harnesses:   []*explore.Harness{createHarness(), crashHarness("crash", false, 3, 4), nestedHarness(1, 2)}})
	explore.Register(&explore.Property{ID: "C14", Level: "model_checking",
		Rule:        "one execution per operation sequence, faulted operation and fault mode, in which every device operation is failed in turn (counted as cases)",
		Assumptions: []string{"a failing device operation has no effect, or (writes) half of its effect", "a single faulted operation per history"},
		Harnesses:   []*explore.Harness{faultHarness(1, 2)}})
}
