package h

import (
	"context"
	"fmt"
	"reflect"
	"strings"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/examples/chat"
	"github.com/inklabs/rangedb/pkg/cqrs"

	"verifmc/ctl"
	"verifmc/explore"
)

// tcmd is a command that makes its aggregate raise the events of its script.
type tcmd struct {
	typ, id, cmd string
	events       []rangedb.Event
}

func (c *tcmd) AggregateType() string { return c.typ }
func (c *tcmd) AggregateID() string   { return c.id }
func (c *tcmd) CommandType() string   { return c.cmd }

// tagg is an aggregate that remembers what it was given since the last Load.
type tagg struct {
	name   string
	cmds   []string
	loaded []Rec
	err    error
	loads  int
	got    []cqrs.Command
	keep   []rangedb.Event // it returns its own buffer, and reuses it
}

func (a *tagg) Load(it rangedb.RecordIterator) {
	a.loads++
	a.loaded, a.err = nil, nil
	for it.Next() {
		a.loaded = append(a.loaded, toRec(it.Record()))
	}
	a.err = it.Err()
}

func (a *tagg) Handle(c cqrs.Command) []rangedb.Event {
	a.got = append(a.got, c)
	a.keep = append(a.keep[:0], c.(*tcmd).events...)
	return a.keep
}

func (a *tagg) CommandTypes() []string { return a.cmds }

// failSaves fails the calls of Save that it is told to.
type failSaves struct {
	rangedb.Store
	n, at int
}

func (f *failSaves) Save(ctx context.Context, stream string, ers ...*rangedb.EventRecord) (uint64, error) {
	if f.n++; f.n == f.at {
		return 0, errRead
	}
	return f.Store.Save(ctx, stream, ers...)
}

func dispatchHarness(kind string, depth int) *explore.Harness {
	scripts := []string{"", "o", "oo", "ox", "xo", "of", "foo", "yxo", "ooo with the 1st save failing", "ooo with the 2nd save failing", "oxo with the 3rd save failing"}
	targets := []string{"a/ta!1", "a2/ta!2", "b/tb!1", "a/tb!1", "none/ta!1"}
	return &explore.Harness{Name: "dispatch-" + kind, ExecsPerGC: 100, Cfg: ctl.Config{Background: append(append([]string{}, bgLevelDB...), bgGRPC...), MaxSteps: 5000000},
		Doc: fmt.Sprintf("every sequence of %d commands: %d commands and targets (command types of two aggregates, one shared by several streams, and an unknown one) with each of %d outcomes of the handler (none, several events of its own or other streams, one that cannot be stored, one of whose saves fails); after each the aggregate has loaded exactly its stream, the returned events are those stored, in order, and the store holds exactly what the model says; returned events stay as they were", depth, len(targets), len(scripts)),
		Body: func(x *ctl.X) {
			e := openStore(x, kind, false)
			defer e.Close()
			fs := &failSaves{Store: e.St}
			ta, tb := &tagg{name: "ta", cmds: []string{"a", "a2"}}, &tagg{name: "tb", cmds: []string{"b"}}
			app := cqrs.New(fs, cqrs.WithAggregates(ta, tb))
			handler := map[string]*tagg{"a": ta, "a2": ta, "b": tb}
			type stored struct{ stream, typ, p string }
			var all []stored
			streamOf := func(s string) []stored {
				var l []stored
				for _, r := range all {
					if r.stream == s {
						l = append(l, r)
					}
				}
				return l
			}
			match := func(what string, got []Rec, want []stored) {
				ok := len(got) == len(want)
				per := map[string]uint64{}
				for i := 0; ok && i < len(got); i++ {
					per[got[i].Stream]++
					ok = got[i].Stream == want[i].stream && got[i].Typ == want[i].typ && strings.Contains(got[i].Data, `"`+want[i].p+`"`)
				}
				if !ok {
					x.FailSig("contents", "%s: %s, want %v", what, shortRecs(got), want)
				}
			}
			var returned, copies [][]rangedb.Event
			n, trail := 0, ""
			for i := 0; i < depth && !x.Failed(); i++ {
				t := targets[x.ChooseF(len(targets), 0, func(i int) string { return targets[i] })]
				s := scripts[x.ChooseF(len(scripts), 0, func(i int) string { return "raises " + scripts[i] })]
				trail += fmt.Sprintf(" %s(%s)", t, s)
				c := &tcmd{cmd: strings.Split(t, "/")[0], typ: strings.Split(t, "/")[1][:2], id: t[len(t)-1:]}
				fs.at = 0
				if k := strings.Index(s, " with the "); k > 0 {
					fs.at = int(s[k+len(" with the ")] - '0')
					s = s[:k]
				}
				fs.n = 0
				var want []rangedb.Event
				before := streamOf(c.typ + "!" + c.id)
				h := handler[c.cmd]
				for j, k := range s {
					n++
					ev := &Ev{Typ: c.typ, ID: c.id, P: fmt.Sprintf("p%d", n)}
					switch k {
					case 'x':
						ev.ID = "7"
					case 'y':
						ev.Typ = "tc"
					case 'f':
						ev.P = "FAIL"
					}
					c.events = append(c.events, ev)
					if h != nil && k != 'f' && j+1 != fs.at {
						want = append(want, ev)
						all = append(all, stored{ev.Typ + "!" + ev.ID, ev.Typ, ev.P})
					}
				}
				loads := [2]int{ta.loads, tb.loads}
				gots := [2]int{len(ta.got), len(tb.got)}
				got := app.Dispatch(c)
				if len(got) != len(want) {
					x.FailSig("returned", "after%s: %s returned, want %s", trail, js(got), js(want))
					return
				}
				for j := range got {
					if got[j] != want[j] {
						x.FailSig("returned", "after%s: %s returned, want %s", trail, js(got), js(want))
						return
					}
				}
				returned, copies = append(returned, got), append(copies, append([]rangedb.Event{}, got...))
				for j, a := range []*tagg{ta, tb} {
					d := 0
					if a == h {
						d = 1
					}
					if a.loads-loads[j] != d || len(a.got)-gots[j] != d || d == 1 && a.got[gots[j]] != cqrs.Command(c) {
						x.FailSig("handled", "after%s: aggregate %s was loaded %d times and got commands %v", trail, a.name, a.loads-loads[j], a.got[gots[j]:])
					}
				}
				if h != nil {
					if len(before) > 0 && h.err != nil || len(before) == 0 && h.err != nil && errKind(h.err) != "notfound" {
						x.FailSig("load", "after%s: loading the aggregate ended with %v", trail, h.err)
					}
					match("after"+trail+": the aggregate loaded", h.loaded, before)
				}
				recs, err := drain(e.St.Events(bgCtx, 0))
				if err != nil && len(all) > 0 {
					x.FailSig("read", "after%s: %v", trail, err)
				}
				match("after"+trail+": the store holds", recs, all)
			}
			for i := range returned {
				for j, ev := range copies[i] {
					if returned[i][j] != ev {
						x.FailSig("alias", "after%s: the events returned by command %d changed to %s", trail, i, js(returned[i]))
					}
				}
			}
			x.Observe("%d %d", len(all), ta.loads)
		}}
}

// chatSim predicts the chat application from the events stored.
type chatSim struct {
	log []rangedb.Event // everything stored, as values
	// sticky is the state of the single user and room objects, when they are shared by all users and rooms
	shared       bool
	userOn       bool
	roomOn       bool
	banned       map[string]bool
	returnedLast []rangedb.Event
}

func (c *chatSim) stream(s string) []rangedb.Event {
	var l []rangedb.Event
	for _, e := range c.log {
		if rangedb.GetEventStream(e) == s {
			l = append(l, e)
		}
	}
	return l
}

func (c *chatSim) warnings(u string) int {
	n := 0
	for _, e := range c.log {
		if w, ok := e.(chat.UserWasWarned); ok && w.UserID == u {
			n++
		}
	}
	return n
}

func (c *chatSim) dispatch(cmd cqrs.Command) []rangedb.Event {
	if !c.shared {
		c.userOn, c.roomOn, c.banned = false, false, map[string]bool{}
	}
	for _, e := range c.stream(rangedb.GetEventStream(cmd)) {
		switch e := e.(type) {
		case chat.UserWasOnBoarded:
			c.userOn = true
		case chat.RoomWasOnBoarded:
			c.roomOn = true
		case chat.UserWasBannedFromRoom:
			c.banned[e.UserID] = true
		}
	}
	var out []rangedb.Event
	switch m := cmd.(type) {
	case chat.OnBoardUser:
		if !c.userOn {
			out = append(out, chat.UserWasOnBoarded{UserID: m.UserID, Name: m.Name})
		}
	case chat.WarnUser:
		out = append(out, chat.UserWasWarned{UserID: m.UserID, Reason: m.Reason})
	case chat.OnBoardRoom:
		out = append(out, chat.RoomWasOnBoarded{RoomID: m.RoomID, UserID: m.UserID, RoomName: m.RoomName})
	case chat.JoinRoom:
		if c.roomOn && !c.banned[m.UserID] {
			out = append(out, chat.RoomWasJoined{RoomID: m.RoomID, UserID: m.UserID})
		}
	case chat.SendMessageToRoom:
		if c.roomOn {
			out = append(out, chat.MessageWasSentToRoom{RoomID: m.RoomID, UserID: m.UserID, Message: m.Message})
		}
	case chat.SendPrivateMessageToRoom:
		if c.roomOn {
			out = append(out, chat.PrivateMessageWasSentToRoom{RoomID: m.RoomID, TargetUserID: m.TargetUserID, Message: m.Message})
		}
	case chat.BanUserFromRoom:
		out = append(out, chat.UserWasBannedFromRoom{RoomID: m.RoomID, UserID: m.UserID, Reason: m.Reason, Timeout: m.Timeout})
	case chat.RemoveUserFromRoom:
		out = append(out, chat.UserWasRemovedFromRoom{RoomID: m.RoomID, UserID: m.UserID, Reason: m.Reason})
	}
	c.log = append(c.log, out...)
	for _, e := range out {
		if m, ok := e.(chat.MessageWasSentToRoom); ok && strings.Contains(strings.ToLower(m.Message), "golly") {
			if c.warnings(m.UserID) >= 2 {
				c.dispatch(chat.RemoveUserFromRoom{UserID: m.UserID, RoomID: m.RoomID, Reason: "language"})
				c.dispatch(chat.BanUserFromRoom{UserID: m.UserID, RoomID: m.RoomID, Reason: "language", Timeout: 3600})
			} else {
				c.dispatch(chat.SendPrivateMessageToRoom{RoomID: m.RoomID, TargetUserID: m.UserID, Message: "you have been warned"})
				c.dispatch(chat.WarnUser{UserID: m.UserID, Reason: "language"})
			}
		}
	}
	return out
}

func chatHarness() *explore.Harness {
	depth := explore.Tier(4, 5)
	ops := []cqrs.Command{
		chat.OnBoardUser{UserID: "u1", Name: "n"}, chat.OnBoardUser{UserID: "u2", Name: "n"}, chat.WarnUser{UserID: "u1", Reason: "r"}, chat.WarnUser{UserID: "u2", Reason: "r"},
		chat.OnBoardRoom{RoomID: "r1", UserID: "u1", RoomName: "n"}, chat.JoinRoom{RoomID: "r1", UserID: "u1"}, chat.JoinRoom{RoomID: "r2", UserID: "u1"},
		chat.SendMessageToRoom{RoomID: "r1", UserID: "u1", Message: "hello"}, chat.SendMessageToRoom{RoomID: "r1", UserID: "u1", Message: "GOLLY"}, chat.SendMessageToRoom{RoomID: "r2", UserID: "u1", Message: "golly"},
		chat.BanUserFromRoom{RoomID: "r1", UserID: "u1", Reason: "r", Timeout: 1},
	}
	return &explore.Harness{Name: "chat", ExecsPerGC: 100, Cfg: ctl.Config{MaxSteps: 5000000},
		Doc: fmt.Sprintf("the example application with its generated aggregates and its reacting processor: every sequence of %d of %d commands on two users and two rooms; after each, the returned events and everything stored are those of handling each command on its own aggregate's full history. Deviations explained by all users, or all rooms, sharing one object's state are reported under a signature of their own", depth, len(ops)),
		Body: func(x *ctl.X) {
			e := openStore(x, "mem", false)
			defer e.Close()
			chat.BindEvents(e.St)
			app, err := chat.New(e.St)
			if err != nil {
				x.FailSig("start", "%v", err)
				return
			}
			right, shared := &chatSim{}, &chatSim{shared: true, banned: map[string]bool{}}
			leaked, trail := "", ""
			for i := 0; i < depth && !x.Failed(); i++ {
				c := ops[x.ChooseF(len(ops), 0, func(i int) string { return fmt.Sprintf("%T%v", ops[i], ops[i]) })]
				trail += fmt.Sprintf(" %T%v", c, c)
				right.log = append([]rangedb.Event{}, shared.log...) // both go on from what was stored
				wr, ws := right.dispatch(c), shared.dispatch(c)
				got := app.Dispatch(c)
				x.Quiesce()
				recs := allRecords(e.St.Events(bgCtx, 0))
				same := func(log, ret []rangedb.Event) bool {
					if len(recs) != len(log) || len(got) != len(ret) {
						return false
					}
					for i, r := range recs {
						if !reflect.DeepEqual(reflect.ValueOf(r.Data).Elem().Interface(), log[i]) || r.StreamName != rangedb.GetEventStream(log[i]) {
							return false
						}
					}
					for i := range got {
						if !reflect.DeepEqual(got[i], ret[i]) {
							return false
						}
					}
					return true
				}
				switch {
				case same(right.log, wr):
					shared.log = append([]rangedb.Event{}, right.log...)
				case same(shared.log, ws):
					if leaked == "" {
						leaked = fmt.Sprintf("after%s: %s, want %s", trail, js(shared.log), js(right.log))
					}
				default:
					var l []rangedb.Event
					for _, r := range recs {
						l = append(l, r.Data.(rangedb.Event))
					}
					x.FailSig("chat", "after%s: returned %s, stored %s, want %s and %s", trail, js(got), js(l), js(wr), js(right.log))
				}
			}
			if leaked != "" && !x.Failed() {
				x.FailSig("shared-aggregate", "%s", leaked)
			}
			x.Observe("%d", len(shared.log))
		}}
}

func init() {
	explore.Register(&explore.Property{ID: "C25", Level: "model_checking", Rule: seqRule, Assumptions: append([]string{
		"commands are dispatched one at a time; an aggregate sees the error of a failed read in the iterator it loads from",
	}, seqAssume...),
		Harnesses: []*explore.Harness{dispatchHarness("mem", explore.Tier(3, 4)), dispatchHarness("ldb", explore.Tier(2, 3)), dispatchHarness("remote-mem", explore.Tier(2, 3)), chatHarness()}})
}
