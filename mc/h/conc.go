package h

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/inklabs/rangedb"

	"verifmc/ctl"
)

// cop is one operation of a concurrent history.
type cop struct {
	kind   string // save, del, all, types, stream, total
	stream string
	typ    string
	n      int    // events saved
	exp    int    // expectation, -1 none
	fail   string // "", "ser" (last event unserializable), "mixed" (last event of another type), "cancel" (cancelled during the last event), "pre" (cancelled before)
	types  []string
	start  uint64

	thread    string
	call, ret int
	done      bool
	payloads  []string
	got       []Rec
	num       uint64
	err       error
}

func (o *cop) String() string {
	s := fmt.Sprintf("%s[%d..%d] ", o.thread, o.call, o.ret)
	switch o.kind {
	case "save":
		s += fmt.Sprintf("save(%s exp %d %s%s)=%d,%s", o.stream, o.exp, strings.Join(o.payloads, "+"), o.fail, o.num, errKind(o.err))
	case "del":
		s += fmt.Sprintf("del(%s exp %d)=%s", o.stream, o.exp, errKind(o.err))
	case "total":
		s += fmt.Sprintf("total(%s)=%d", o.stream, o.num)
	default:
		s += fmt.Sprintf("%s(%s%v from %d)=%s,%s", o.kind, o.stream, o.types, o.start, shortRecs(o.got), errKind(o.err))
	}
	return s
}

func shortRecs(r []Rec) string {
	var s []string
	for _, x := range r {
		s = append(s, fmt.Sprintf("%s:g%ds%d", payload(x), x.GSN, x.SSN))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// hist records and checks one concurrent history.
type hist struct {
	x    *ctl.X
	st   rangedb.Store
	tick int
	ops  []*cop
	n    int
}

func newHist(x *ctl.X, st rangedb.Store) *hist { return &hist{x: x, st: st} }

// run executes o and records it.
func (h *hist) run(thread string, tmpl cop) *cop {
	o := &tmpl
	o.thread = thread
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var ers []*rangedb.EventRecord
	if o.kind == "save" {
		for i := 0; i < o.n; i++ {
			h.n++
			e := &Ev{Typ: o.typ, ID: idOf(o.stream), P: fmt.Sprintf("%s%d", thread, h.n)}
			if i == o.n-1 {
				switch o.fail {
				case "ser":
					e.P = "FAIL" + e.P
				case "mixed":
					e.Typ = "other"
				case "cancel":
					e.onType = cancel
				}
			}
			o.payloads = append(o.payloads, e.P)
			ers = append(ers, &rangedb.EventRecord{Event: e})
		}
	}
	if o.fail == "pre" {
		cancel()
	}
	h.ops = append(h.ops, o)
	h.tick++
	o.call = h.tick
	switch o.kind {
	case "save":
		if o.exp < 0 {
			o.num, o.err = h.st.Save(ctx, o.stream, ers...)
		} else {
			o.num, o.err = h.st.OptimisticSave(ctx, uint64(o.exp), o.stream, ers...)
		}
	case "del":
		o.err = h.st.OptimisticDeleteStream(ctx, uint64(o.exp), o.stream)
	case "all":
		o.got, o.err = drain(h.st.Events(ctx, o.start))
	case "types":
		o.got, o.err = drain(h.st.EventsByAggregateTypes(ctx, o.start, o.types...))
	case "stream":
		o.got, o.err = drain(h.st.EventsByStream(ctx, o.start, o.stream))
	case "total":
		o.num, o.err = h.st.TotalEventsInStream(ctx, o.stream)
	default:
		panic(o.kind)
	}
	h.tick++
	o.ret = h.tick
	o.done = true
	return o
}

func idOf(stream string) string {
	if i := strings.IndexByte(stream, '!'); i >= 0 {
		return stream[i+1:]
	}
	return stream
}

type lev struct {
	p, stream, typ string
	ssn            uint64
}

type lstate struct {
	evs []lev
	max uint64
}

func (s *lstate) count(stream string) int {
	n := 0
	for _, e := range s.evs {
		if e.stream == stream {
			n++
		}
	}
	return n
}

// learn collects the global sequence number of every payload ever seen.
func (h *hist) learn() (map[string]uint64, string) {
	g := map[string]uint64{}
	byG := map[uint64]string{}
	for _, o := range h.ops {
		last := uint64(0)
		for _, r := range o.got {
			p := payload(r)
			if v, ok := g[p]; ok && v != r.GSN {
				return nil, fmt.Sprintf("event %s was seen with global sequence numbers %d and %d", p, v, r.GSN)
			}
			if q, ok := byG[r.GSN]; ok && q != p {
				return nil, fmt.Sprintf("events %s and %s both have global sequence number %d", p, q, r.GSN)
			}
			g[p], byG[r.GSN] = r.GSN, p
			if r.GSN <= last {
				return nil, fmt.Sprintf("%s is not in increasing global order", o)
			}
			last = r.GSN
		}
	}
	return g, ""
}

// apply checks o against the state and returns the next state.
func (h *hist) apply(s *lstate, o *cop, gsn map[string]uint64) (*lstate, bool) {
	switch o.kind {
	case "save":
		cur := s.count(o.stream)
		if o.err != nil {
			k := errKind(o.err)
			if o.exp >= 0 && o.exp != cur {
				if o.fail != "" {
					return s, true
				}
				return s, k == fmt.Sprintf("unexpected(%d,%d)", o.exp, cur)
			}
			return s, o.fail != ""
		}
		if o.fail != "" && o.fail != "cancel" || o.exp >= 0 && o.exp != cur || o.num != uint64(cur+o.n) {
			return s, false
		}
		n := &lstate{evs: append([]lev(nil), s.evs...), max: s.max}
		for i, p := range o.payloads {
			n.evs = append(n.evs, lev{p, o.stream, o.typ, uint64(cur + i + 1)})
			if g, ok := gsn[p]; ok {
				if g <= n.max {
					return s, false
				}
				n.max = g
			}
		}
		return n, true
	case "del":
		cur := s.count(o.stream)
		k := errKind(o.err)
		switch {
		case o.fail == "pre":
			return s, o.err != nil
		case cur == 0:
			return s, k == "notfound"
		case cur != o.exp:
			return s, k == fmt.Sprintf("unexpected(%d,%d)", o.exp, cur)
		case o.err != nil:
			return s, false
		}
		n := &lstate{max: s.max}
		for _, e := range s.evs {
			if e.stream != o.stream {
				n.evs = append(n.evs, e)
			}
		}
		return n, true
	case "total":
		return s, o.err == nil && o.num == uint64(s.count(o.stream))
	}
	// reads
	if o.kind == "stream" && s.count(o.stream) == 0 {
		return s, len(o.got) == 0 && errKind(o.err) == "notfound"
	}
	if o.err != nil && !(o.kind == "stream" && len(o.got) == 0 && errKind(o.err) == "notfound" && o.start > uint64(s.count(o.stream))) {
		return s, false
	}
	i := 0
	for _, e := range s.evs {
		switch o.kind {
		case "types":
			if !inSet(e.typ, o.types) {
				continue
			}
		case "stream":
			if e.stream != o.stream || e.ssn < o.start {
				continue
			}
		}
		if o.kind != "stream" && gsn[e.p] < o.start {
			continue
		}
		if i >= len(o.got) {
			return s, false
		}
		r := o.got[i]
		if payload(r) != e.p || r.Stream != e.stream || r.Typ != e.typ || r.SSN != e.ssn {
			return s, false
		}
		i++
	}
	return s, i == len(o.got)
}

// check decides whether the history is linearizable.
func (h *hist) check() {
	for _, o := range h.ops {
		if !o.done {
			return // reported as stuck elsewhere
		}
	}
	gsn, msg := h.learn()
	if msg != "" {
		h.x.FailSig("order", "%s; history: %s", msg, h)
		return
	}
	ops := append([]*cop(nil), h.ops...)
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
	used := make([]bool, len(ops))
	var rec func(s *lstate, left int) bool
	rec = func(s *lstate, left int) bool {
		if left == 0 {
			return true
		}
		minRet := 1 << 30
		for i, o := range ops {
			if !used[i] && o.ret < minRet {
				minRet = o.ret
			}
		}
		for i, o := range ops {
			if used[i] || o.call > minRet {
				continue
			}
			n, ok := h.apply(s, o, gsn)
			if !ok {
				continue
			}
			used[i] = true
			if rec(n, left-1) {
				return true
			}
			used[i] = false
		}
		return false
	}
	if !rec(&lstate{}, len(ops)) {
		h.x.FailSig("not-linearizable", "no order of the operations explains the results: %s", h)
	}
}

func (h *hist) String() string {
	var s []string
	for _, o := range h.ops {
		s = append(s, o.String())
	}
	return strings.Join(s, "; ")
}

// observe records the distinguishing outcome of the history.
func (h *hist) observe() {
	for _, o := range h.ops {
		if strings.HasPrefix(o.thread, "t") {
			h.x.Observe("%s %s%d%s", o.kind, errKind(o.err), o.num, shortRecs(o.got))
		}
	}
}
