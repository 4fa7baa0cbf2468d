package h

import (
	"context"
	crand "crypto/rand"
	"encoding/base64"
	"fmt"
	"io"
	"strings"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/aes"
	"github.com/inklabs/rangedb/pkg/crypto/cryptotest"
	"github.com/inklabs/rangedb/pkg/crypto/eventencryptor"
	"github.com/inklabs/rangedb/pkg/crypto/xchacha20poly1305"
	"github.com/inklabs/rangedb/provider/encryptedstore"

	"verifmc/ctl"
	"verifmc/explore"
)

// spySerializer keeps everything that is written to or read from the parent store.
type spySerializer struct {
	rangedb.RecordSerializer
	seen map[string]bool
}

func (s *spySerializer) Serialize(r *rangedb.Record) ([]byte, error) {
	b, err := s.RecordSerializer.Serialize(r)
	if err == nil {
		s.seen[string(b)] = true
	}
	return b, err
}

func (s *spySerializer) Deserialize(b []byte) (*rangedb.Record, error) {
	s.seen[string(b)] = true
	return s.RecordSerializer.Deserialize(b)
}

var encCiphers = []struct {
	name string
	mk   func() crypto.Encryptor
}{
	{"aes-gcm", func() crypto.Encryptor { return aes.NewGCM() }},
	{"aes-cbc", func() crypto.Encryptor { return aes.NewCBCPKCS5Padding() }},
	{"xchacha20-poly1305", func() crypto.Encryptor { return xchacha20poly1305.New() }},
}

// nonceReader is a deterministic source of distinct nonces.
type nonceReader struct{ n uint32 }

func (c *nonceReader) Read(p []byte) (int, error) {
	c.n++
	for i := range p {
		p[i] = byte(c.n >> (8 * uint(i%4)))
	}
	return len(p), nil
}

// encVals is a value alphabet for encrypted text fields.
var encVals = [][2]string{
	{"SECRETVALUE-name", "SECRETVALUE@mail"},
	{"", ""},
	{"SECRETVALUE \"<ü>\x00\n世", strings.Repeat("SECRETVALUE", 20)},
	{base64.StdEncoding.EncodeToString([]byte("SECRETVALUESECRETVALUE")), "SECRETVALUE=="},
}

// encSys is an encrypting store over a plain one, with the reference.
type encSys struct {
	*Env
	enc    rangedb.Store
	keys   crypto.KeyStore
	spy    *spySerializer
	m      *Model
	gone   map[string]bool // subjects whose key was deleted
	hist   []string
	subs   []*encSub
	n      int
	failed bool
	ctx    context.Context
	cancel context.CancelFunc
	rand   io.Reader
}

// Close releases readers that were abandoned by a failed check.
func (s *encSys) Close() {
	s.cancel()
	s.X.Quiesce()
	s.Env.Close()
	crand.Reader = s.rand
}

type encSub struct {
	name string
	raw  bool
	typ  string
	from int
	got  []*rangedb.Record
	json []string
}

func openEnc(x *ctl.X, parent string, points bool, keyKind string, cipher int) *encSys {
	s := &encSys{Env: openStore(x, parent, points), m: newModel(), gone: map[string]bool{}}
	s.ctx, s.cancel = context.WithCancel(context.Background())
	s.spy = &spySerializer{RecordSerializer: s.Ser.RecordSerializer, seen: map[string]bool{}}
	s.Ser.RecordSerializer = s.spy
	s.rand, crand.Reader = crand.Reader, &nonceReader{}
	ks := openKeys(x, keyKind, false)
	s.keys = ks.st
	ee := eventencryptor.New(s.keys, encCiphers[cipher].mk())
	ee.SetRandReader(&countReader{})
	s.enc = encryptedstore.New(s.St, ee)
	s.enc.Bind(&cryptotest.CustomerSignedUp{}, &cryptotest.CustomerAddedBirth{}, &Ev{})
	return s
}

func (s *encSys) fail(sig, format string, args ...interface{}) {
	s.failed = true
	s.X.FailSig(sig, format+"; history: %s", append(args, strings.Join(s.hist, "; "))...)
}

func secretParts(b string) string {
	for _, w := range []string{"SECRETVALUE", base64.StdEncoding.EncodeToString([]byte("SECRETVALUE"))[:14], "1987654"} {
		if strings.Contains(b, w) {
			return w
		}
	}
	return ""
}

// plainOf is what a reader has to see of an event.
func plainOf(e rangedb.Event) string { return js(e) }

// save saves events through the encrypting store; want is "" when it has to succeed.
func (s *encSys) save(stream string, exp int, cancelled bool, want string, evs ...rangedb.Event) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if cancelled {
		cancel()
	}
	var ers []*rangedb.EventRecord
	var before []string
	refused := false
	var metas []string
	for i, e := range evs {
		var meta map[string]interface{} // (different for every event of a batch, the third has none)
		if i != 2 {
			meta = map[string]interface{}{"m": float64(s.n + i)}
		}
		metas = append(metas, js(meta))
		ers = append(ers, &rangedb.EventRecord{Event: e, Metadata: meta})
		before = append(before, js(e))
		if _, ok := e.(*Ev); !ok && s.gone[e.AggregateID()] {
			refused = true
		}
	}
	var num uint64
	var err error
	if exp < 0 {
		num, err = s.enc.Save(ctx, stream, ers...)
	} else {
		num, err = s.enc.OptimisticSave(ctx, uint64(exp), stream, ers...)
	}
	what := fmt.Sprintf("save(%s exp %d cancelled %v %v)=%d,%s", stream, exp, cancelled, before, num, errKind(err))
	s.hist = append(s.hist, what)
	for i, e := range evs {
		if ers[i].Event != e || js(e) != before[i] {
			s.fail("caller-event", "saving changed the caller's event from %s to %s", before[i], js(ers[i].Event))
		}
	}
	if (want != "" || refused) != (err != nil) {
		s.fail("save-result", "%s: expected %q (key deleted: %v), got %v", what, want, refused, err)
	}
	if refused && err != nil && err != crypto.ErrKeyWasDeleted && want == "" {
		s.fail("save-result", "%s: expected the deletion to be reported, got %v", what, err)
	}
	if err != nil {
		return
	}
	cur := s.m.stream(stream)
	ssn := uint64(0)
	if len(cur) > 0 {
		ssn = cur[len(cur)-1].SSN
	}
	for i, e := range evs {
		s.n++
		ssn++
		s.m.Recs = append(s.m.Recs, Rec{Stream: stream, SSN: ssn, Typ: e.AggregateType(), ID: e.AggregateID(), EvType: e.EventType(), Data: before[i], Meta: metas[i]})
	}
	if num != ssn {
		s.fail("save-result", "%s: returned %d", what, num)
	}
}

// expect is the record list a reader has to see.
func (s *encSys) expect(f func(Rec) bool) []Rec {
	return filter(s.m.Recs, f)
}

// readable maps a record that is read through the encrypting store to the same
// form as the model; records of deleted subjects are compared redacted.
func (s *encSys) same(r *rangedb.Record, data string, m Rec) string {
	if r == nil {
		return "no record"
	}
	if r.StreamName != m.Stream || r.StreamSequenceNumber != m.SSN || r.AggregateType != m.Typ || r.AggregateID != m.ID || r.EventType != m.EvType || js(r.Metadata) != m.Meta {
		return fmt.Sprintf("%+v instead of %v", *r, m)
	}
	if s.gone[m.ID] && m.EvType != "Ev" {
		if w := secretParts(data); w != "" {
			return fmt.Sprintf("plaintext of a subject whose key was deleted: %s", data)
		}
		return ""
	}
	if data != m.Data {
		return fmt.Sprintf("data %s instead of %s", data, m.Data)
	}
	return ""
}

func (s *encSys) readAll(what string, it rangedb.RecordIterator, want []Rec, looks int, ctxNext bool) {
	i, last := 0, uint64(0)
	next := it.Next
	if ctxNext {
		next = func() bool { return it.NextContext(context.Background()) }
	}
	for next() {
		for l := 0; l < looks; l++ {
			r := it.Record()
			if r == nil {
				s.fail("read", "%s: no record at position %d, look %d (error %v)", what, i, l, it.Err())
				return
			}
			if l == 0 && r.GlobalSequenceNumber <= last {
				s.fail("read", "%s: global sequence number %d after %d", what, r.GlobalSequenceNumber, last)
			}
			last = r.GlobalSequenceNumber
			if i >= len(want) {
				s.fail("read", "%s: unexpected record %+v", what, *r)
				return
			}
			if msg := s.same(r, js(r.Data), want[i]); msg != "" {
				s.fail("read", "%s: position %d, look %d: %s", what, i, l, msg)
				return
			}
		}
		i++
	}
	if it.Err() != nil || i != len(want) {
		s.fail("read", "%s: %d of %d records, error %v", what, i, len(want), it.Err())
	}
}

func (s *encSys) subscribe() {
	add := func(name, typ string, st rangedb.Store, raw bool, start bool) {
		sub := &encSub{name: name, typ: typ, raw: raw, from: len(s.m.Recs)}
		f := rangedb.RecordSubscriberFunc(func(r *rangedb.Record) {
			sub.got = append(sub.got, r)
			sub.json = append(sub.json, js(r.Data))
		})
		var rs rangedb.RecordSubscription
		if typ == "" {
			rs = st.AllEventsSubscription(context.Background(), 50, f)
		} else {
			rs = st.AggregateTypesSubscription(context.Background(), 50, f, typ)
		}
		var err error
		if start {
			sub.from = 0
			err = rs.StartFrom(0)
		} else {
			err = rs.Start()
		}
		if err != nil {
			s.fail("subscribe", "%s: %v", name, err)
		}
		s.subs = append(s.subs, sub)
	}
	add("first", "", s.enc, false, false)
	add("second", "", s.enc, false, true)
	add("customer", "customer", s.enc, false, false)
	add("customer2", "customer", s.enc, false, true)
	add("raw", "", s.St, true, false)
}

func (s *encSys) check(looks int) {
	if s.failed {
		return
	}
	ctx := s.ctx
	all := func(Rec) bool { return true }
	cust := func(r Rec) bool { return r.Typ == "customer" }
	s.readAll("all events", s.enc.Events(ctx, 0), s.expect(all), looks, false)
	s.readAll("customer events", s.enc.EventsByAggregateTypes(ctx, 0, "customer"), s.expect(cust), looks, true)
	s.readAll("both types", s.enc.EventsByAggregateTypes(ctx, 0, "customer", "other"), s.expect(all), 1, false)
	for _, st := range s.m.streams() {
		st := st
		w := s.expect(func(r Rec) bool { return r.Stream == st })
		if len(w) == 0 {
			continue
		}
		s.readAll("stream "+st, s.enc.EventsByStream(ctx, 0, st), w, looks, false)
		if n, err := s.enc.TotalEventsInStream(ctx, st); err != nil || n != uint64(len(w)) {
			s.fail("read", "total of %s: %d, %v", st, n, err)
		}
	}
	it := s.St.Events(ctx, 0)
	for it.Next() {
		if w := secretParts(js(it.Record())); w != "" {
			s.fail("plaintext", "a read of the parent store contains %q: %s", w, js(it.Record()))
		}
	}
	for b := range s.spy.seen {
		if w := secretParts(b); w != "" {
			s.fail("plaintext", "a serialized record of the parent store contains %q: %s", w, b)
		}
	}
}

func (s *encSys) checkSubs(everSaved []Rec) {
	s.X.Quiesce()
	for _, sub := range s.subs {
		var want []Rec
		for _, r := range everSaved[sub.from:] {
			if sub.typ == "" || r.Typ == sub.typ {
				want = append(want, r)
			}
		}
		if len(sub.got) != len(want) {
			s.fail("subscriber", "subscriber %s got %d of %d records", sub.name, len(sub.got), len(want))
			continue
		}
		for i, r := range sub.got {
			if sub.raw {
				if w := secretParts(sub.json[i] + js(r)); w != "" {
					s.fail("plaintext", "a subscriber of the parent store got %q: %s", w, sub.json[i])
				}
				continue
			}
			if msg := s.same(r, sub.json[i], want[i]); msg != "" {
				s.fail("subscriber", "subscriber %s, record %d: %s", sub.name, i, msg)
			}
		}
	}
}

type encAct struct {
	name string
	do   func(s *encSys, v int)
}

func signedUp(id string, v int) *cryptotest.CustomerSignedUp {
	return &cryptotest.CustomerSignedUp{ID: id, Name: encVals[v][0], Email: encVals[v][1], Status: "active"}
}

func birth(id string) *cryptotest.CustomerAddedBirth {
	return &cryptotest.CustomerAddedBirth{ID: id, BirthMonth: 12, BirthYear: 1987654}
}

func custStream(id string) string { return "customer!" + id }

func encActs() []encAct {
	return []encAct{
		{"save", func(s *encSys, v int) { s.save(custStream("a"), -1, false, "", signedUp("a", v)) }},
		{"save value event", func(s *encSys, v int) { s.save(custStream("a"), -1, false, "", *signedUp("a", v)) }},
		{"save batch", func(s *encSys, v int) {
			s.save(custStream("b"), -1, false, "", signedUp("b", v), birth("b"), signedUp("b", 1))
		}},
		{"save plain", func(s *encSys, v int) {
			s.save("other!1", -1, false, "", &Ev{Typ: "other", ID: "1", P: fmt.Sprint("p", len(s.m.Recs))})
		}},
		{"wrong expectation, retry", func(s *encSys, v int) {
			e, n := signedUp("a", v), len(s.m.stream(custStream("a")))
			s.save(custStream("a"), n+1, false, "unexpected sequence number", e)
			s.save(custStream("a"), n, false, "", e)
		}},
		{"cancelled, retry", func(s *encSys, v int) {
			e, f := signedUp("a", v), birth("a")
			s.save(custStream("a"), -1, true, "cancelled", e, f)
			s.save(custStream("a"), -1, false, "", e, f)
		}},
		{"mixed batch, retry", func(s *encSys, v int) {
			e := signedUp("a", v)
			s.save(custStream("a"), -1, false, "mixed", e, &Ev{Typ: "other", ID: "1", P: "x"})
			s.save(custStream("a"), -1, false, "", e)
		}},
		{"unserializable, retry", func(s *encSys, v int) {
			e := signedUp("a", v)
			s.save(custStream("a"), -1, false, "unserializable", e, &Ev{Typ: "customer", ID: "a", P: "FAIL"})
			s.save(custStream("a"), -1, false, "", e)
		}},
		{"same object twice", func(s *encSys, v int) {
			e := signedUp("b", v)
			s.save(custStream("b"), -1, false, "", e, e)
			s.save(custStream("b"), -1, false, "", e)
		}},
		{"delete stream", func(s *encSys, v int) {
			n := len(s.m.stream(custStream("a")))
			err := s.enc.OptimisticDeleteStream(context.Background(), uint64(n), custStream("a"))
			s.hist = append(s.hist, fmt.Sprintf("delete stream=%v", err))
			if (err == nil) != (n > 0) {
				s.fail("delete", "deleting a stream of %d events: %v", n, err)
			}
			s.m.delete(custStream("a"))
		}},
	}
}

func encSeqHarness(parent string) *explore.Harness {
	return &explore.Harness{Name: "seq-" + parent, ExecsPerGC: 50,
		Doc: fmt.Sprintf("every sequence of 3 (thorough: 4) of %d actions (saves of events with none, two text or two numeric encrypted fields, by pointer and by value, batches, the same object twice, every failure followed by a retry with the same objects, deletes) on the encrypting store, with %d value pairs and 3 ciphers; after every action all reads (looking at every record twice), the parent's reads, every serialized byte and 5 subscribers (4 encrypted, 1 of the parent) are compared with the plain model", len(encActs()), len(encVals)),
		Cfg: ctl.Config{Background: bgLevelDB},
		Body: func(x *ctl.X) {
			cipher := x.ChooseF(3, 0, func(i int) string { return encCiphers[i].name })
			v := x.ChooseF(len(encVals), 0, func(i int) string { return fmt.Sprintf("values %q", encVals[i]) })
			s := openEnc(x, parent, false, "memory", cipher)
			defer s.Close()
			s.subscribe()
			var ever []Rec
			acts := encActs()
			depth := explore.Tier(3, 4)
			for i := 0; i < depth && !s.failed; i++ {
				a := acts[x.ChooseF(len(acts), 0, func(i int) string { return acts[i].name })]
				old := len(s.m.Recs)
				if a.name == "delete stream" {
					a.do(s, v)
				} else {
					a.do(s, v)
					ever = append(ever, s.m.Recs[old:]...)
				}
				s.check(2)
			}
			s.checkSubs(ever)
			if !s.failed {
				s.check(3)
			}
			x.Observe("%s", strings.Join(s.hist, ";"))
		}}
}

// encChainHarness saves what the store itself has written before.
func encChainHarness() *explore.Harness {
	return &explore.Harness{Name: "chain", ExecsPerGC: 50,
		Doc: "every sequence of 3 (thorough: 4) saves for two subjects with 3 ciphers whose field values are any text or any encrypted text of an earlier save: everything is read back as saved",
		Cfg: ctl.Config{Background: bgLevelDB},
		Body: func(x *ctl.X) {
			cipher := x.ChooseF(3, 0, func(i int) string { return encCiphers[i].name })
			s := openEnc(x, "mem", false, "memory", cipher)
			defer s.Close()
			pool := []string{"plain", ""}
			for i := 0; i < explore.Tier(3, 4) && !s.failed; i++ {
				id := []string{"a", "b"}[x.Choose(2, 0, "subject")]
				name := pool[x.ChooseF(len(pool), 0, func(i int) string { return fmt.Sprintf("name %q", pool[i]) })]
				email := pool[x.ChooseF(len(pool), 0, func(i int) string { return fmt.Sprintf("e-mail %q", pool[i]) })]
				s.save(custStream(id), -1, false, "", &cryptotest.CustomerSignedUp{ID: id, Name: name, Email: email, Status: name})
				s.check(2)
				recs := allRecords(s.St.EventsByStream(bgCtx, 0, custStream(id)))
				if len(recs) > 0 {
					if raw, ok := recs[len(recs)-1].Data.(*cryptotest.CustomerSignedUp); ok {
						pool = append(pool, raw.Name)
						if i == 0 {
							pool = append(pool, raw.Email)
						}
					} else {
						x.FailSig("harness", "the parent's record holds %T", recs[len(recs)-1].Data)
					}
				}
			}
			x.Observe("%s", strings.Join(s.hist, ";"))
		}}
}

// deletionSeqHarness is C21 through the encrypting store.
func deletionSeqHarness(keyKind string) *explore.Harness {
	return &explore.Harness{Name: "store-seq-" + keyKind, ExecsPerGC: 50,
		Doc: "every sequence of 3 (thorough: 4) of {save a, save batch a, save b, save plain, delete the key of a, delete the key of b, read} through the encrypting store; after each, every read yields exactly the records, with the plaintext of subjects whose key exists and without that of the others; saving for a subject whose key was deleted is refused and changes nothing; subscribers see the same",
		Cfg: ctl.Config{Background: bgLevelDB},
		Body: func(x *ctl.X) {
			s := openEnc(x, "mem", false, keyKind, 0)
			defer s.Close()
			acts := []encAct{
				{"save a", func(s *encSys, v int) { s.save(custStream("a"), -1, false, "", signedUp("a", 0)) }},
				{"save batch a", func(s *encSys, v int) {
					s.save(custStream("a"), -1, false, "", birth("a"), signedUp("a", 2))
				}},
				{"save b", func(s *encSys, v int) { s.save(custStream("b"), -1, false, "", signedUp("b", 0)) }},
				{"save plain", func(s *encSys, v int) {
					s.save("other!1", -1, false, "", &Ev{Typ: "other", ID: "1", P: "p"})
				}},
				{"delete key a", func(s *encSys, v int) { s.deleteKey("a") }},
				{"delete key b", func(s *encSys, v int) { s.deleteKey("b") }},
			}
			s.save(custStream("a"), -1, false, "", signedUp("a", 0))
			s.save(custStream("b"), -1, false, "", birth("b"))
			depth := explore.Tier(3, 4)
			for i := 0; i < depth && !s.failed; i++ {
				a := acts[x.ChooseF(len(acts), 0, func(i int) string { return acts[i].name })]
				a.do(s, 0)
				s.check(2)
			}
			if !s.failed {
				from := len(s.m.Recs)
				s.subscribe()
				s.save("other!1", -1, false, "", &Ev{Typ: "other", ID: "1", P: "p"})
				s.save(custStream("a"), -1, false, "", signedUp("a", 0))
				s.save(custStream("b"), -1, false, "", signedUp("b", 3))
				for _, sub := range s.subs {
					if sub.from != 0 {
						sub.from = from
					}
				}
				s.checkSubs(s.m.Recs)
				s.check(1)
			}
			x.Observe("%s", strings.Join(s.hist, ";"))
		}}
}

func (s *encSys) deleteKey(subj string) {
	err := s.keys.Delete(subj)
	s.hist = append(s.hist, fmt.Sprintf("delete key %s=%v", subj, err))
	if err != nil {
		s.fail("delete-key", "deleting the key of %s: %v", subj, err)
	}
	s.gone[subj] = true
}

// encConcHarness interleaves savers, readers and subscribers of one encrypting store.
func encConcHarness(parent string, stmt bool, quick, thorough int, only bool) *explore.Harness {
	name := "conc-" + parent
	if stmt {
		name = "conc-stmt-" + parent
	}
	scripts := []string{"save a", "save a,b", "save same", "read", "read one iterator", "subscribe"}
	return &explore.Harness{Name: name, Quick: quick, Thorough: thorough, ThoroughOnly: only,
		Doc: fmt.Sprintf("every combination of 2 threads over %v on one encrypting store with two subscribers; all interleavings up to the preemption bound; oracle: every save succeeds, the events' objects stay unchanged, every reader and subscriber sees plaintext only, each record once, and the parent never holds plaintext", scripts),
		Cfg: ctl.Config{Background: bgLevelDB, Stmt: stmt, BlockCost: 1, SelectCost: 1, Families: true},
		Body: func(x *ctl.X) {
			a := x.ChooseF(len(scripts), 0, func(i int) string { return scripts[i] })
			b := a + x.ChooseF(len(scripts)-a, 0, func(i int) string { return scripts[a+i] })
			s := openEnc(x, parent, !stmt, "memory", 0)
			defer s.Close()
			s.save(custStream("z"), -1, false, "", signedUp("z", 0), birth("z"))
			// two live subscribers sharing whatever the parent hands out
			s.subscribe()
			shared := signedUp("a", 2)
			want := map[string]string{js(signedUp("a", 0)): "a", js(signedUp("b", 2)): "b", js(shared): "same", js(signedUp("z", 0)): "z", js(birth("z")): "z"}
			ctx := s.ctx
			saves, reads := 0, 0
			saved := func(n uint64, err error) {
				if err != nil {
					s.fail("save-result", "concurrent save fails: %v", err)
				}
			}
			look := func(r *rangedb.Record, who string) {
				if r == nil {
					s.fail("read", "%s got no record", who)
				} else if d := js(r.Data); want[d] == "" {
					s.fail("read", "%s got %s", who, d)
				}
			}
			run := func(sc, th string) {
				switch sc {
				case "save a":
					saves++
					saved(s.enc.Save(ctx, custStream("a"), &rangedb.EventRecord{Event: signedUp("a", 0)}))
				case "save a,b":
					saves += 2
					saved(s.enc.Save(ctx, custStream("a"), &rangedb.EventRecord{Event: signedUp("a", 0)}))
					saved(s.enc.Save(ctx, custStream("b"), &rangedb.EventRecord{Event: signedUp("b", 2)}))
				case "save same":
					saves++
					saved(s.enc.Save(ctx, custStream("a"), &rangedb.EventRecord{Event: shared}))
				case "read", "read one iterator":
					reads++
					it := s.enc.Events(ctx, 0)
					n := 0
					for it.Next() {
						look(it.Record(), th)
						look(it.Record(), th+" (second look)")
						n++
					}
					if it.Err() != nil || n < 2 {
						s.fail("read", "%s read %d records, error %v", th, n, it.Err())
					}
				case "subscribe":
					sub := s.enc.AllEventsSubscription(ctx, 10, rangedb.RecordSubscriberFunc(func(r *rangedb.Record) { look(r, th+" subscriber") }))
					if err := sub.StartFrom(0); err != nil {
						s.fail("subscribe", "%v", err)
					}
				}
			}
			x.Explore(true)
			x.Go("t0", func() { run(scripts[a], "t0") })
			x.Go("t1", func() { run(scripts[b], "t1") })
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				s.fail("stuck", "threads %v never finish", stuck)
				return
			}
			if js(shared) != js(signedUp("a", 2)) {
				s.fail("caller-event", "a concurrent save changed the caller's event to %s", js(shared))
			}
			for _, sub := range s.subs {
				exp := saves
				if sub.from == 0 {
					exp += 2
				}
				if len(sub.got) != exp {
					s.fail("subscriber", "subscriber %s got %d of %d records", sub.name, len(sub.got), exp)
				}
				for i, d := range sub.json {
					if sub.raw {
						if w := secretParts(d); w != "" {
							s.fail("plaintext", "a subscriber of the parent got %q", w)
						}
					} else if want[d] == "" {
						s.fail("subscriber", "subscriber %s got record %d with %s", sub.name, i, d)
					} else if after := js(sub.got[i].Data); after != d {
						s.fail("subscriber", "the record given to subscriber %s later changed to %s", sub.name, after)
					}
				}
			}
			it := s.enc.Events(ctx, 0)
			n := 0
			for it.Next() {
				look(it.Record(), "final")
				n++
			}
			if n != saves+2 || it.Err() != nil {
				s.fail("read", "finally %d of %d records, error %v", n, saves+2, it.Err())
			}
			for b := range s.spy.seen {
				if w := secretParts(b); w != "" {
					s.fail("plaintext", "a serialized record of the parent store contains %q: %s", w, b)
				}
			}
			x.Observe("%d saves, %d reads", saves, reads)
		}}
}

func init() {
	explore.Register(&explore.Property{ID: "C20", Level: "model_checking", Rule: seqRule + "; " + concRule,
		Assumptions: append(append([]string{}, concAssume...), "events follow the generated shape (encrypted fields are top-level fields of the event struct)"),
		Harnesses: append([]*explore.Harness{
			encSeqHarness("mem"), encSeqHarness("ldb"), encChainHarness(),
			encConcHarness("mem", false, 1, 2, false), encConcHarness("ldb", false, 1, 2, false), encConcHarness("mem", true, 1, 2, false),
		}, encStoreHarnesses()...)})
}

// encStoreHarnesses run the histories of ordinary stores through the encrypting one.
func encStoreHarnesses() []*explore.Harness {
	return cat(
		seqSpec{name: "history", kinds: []string{"enc-mem", "enc-ldb"}, names: []string{"ta!1", "ta!2", "tb!1", "odd", "never"}, types: []string{"ta", "tb", "other"},
			doc: "through the encrypting store, every event encrypted, with subscriptions", ops: append(wrapperOps(), reopenOp), quick: 3, thorough: 4, fullLast: true,
			setup: func(s *seq) { s.subscribe("all", 0); s.subscribe("ta", 0, "ta") }}.harnesses(),
		[]*explore.Harness{fromFewHarness("enc-mem", 1, 2), liveSubHarness("enc-mem", false, 0, 1)})
}

// oddKeys is a key store of which some calls fail.
type oddKeys struct {
	crypto.KeyStore
	get func(subject string) (string, error) // nil: as stored
}

func (k *oddKeys) Get(subject string) (string, error) {
	if k.get != nil {
		if key, err := k.get(subject); key != "" || err != nil {
			return key, err
		}
	}
	return k.KeyStore.Get(subject)
}

// encDamageHarness: events that cannot be decrypted.
func encDamageHarness() *explore.Harness {
	type read struct {
		name string
		open func(s *encSys) rangedb.RecordIterator
		want func(r Rec) bool
	}
	reads := []read{
		{"all", func(s *encSys) rangedb.RecordIterator { return s.enc.Events(s.ctx, 0) }, func(Rec) bool { return true }},
		{"all from 3", func(s *encSys) rangedb.RecordIterator { return s.enc.Events(s.ctx, 3) }, func(r Rec) bool { return r.GSN >= 3 }},
		{"type", func(s *encSys) rangedb.RecordIterator { return s.enc.EventsByAggregateTypes(s.ctx, 0, "customer") }, func(r Rec) bool { return r.Typ == "customer" }},
		{"types", func(s *encSys) rangedb.RecordIterator {
			return s.enc.EventsByAggregateTypes(s.ctx, 2, "customer", "other")
		}, func(r Rec) bool { return r.GSN >= 2 }},
		{"stream b", func(s *encSys) rangedb.RecordIterator { return s.enc.EventsByStream(s.ctx, 0, custStream("b")) }, func(r Rec) bool { return r.ID == "b" }},
		{"stream b from 2", func(s *encSys) rangedb.RecordIterator { return s.enc.EventsByStream(s.ctx, 2, custStream("b")) }, func(r Rec) bool { return r.ID == "b" && r.SSN >= 2 }},
	}
	causes := []string{"key not found", "key store fails", "key store fails once", "another key", "no key"}
	return &explore.Harness{Name: "undecryptable", ExecsPerGC: 50,
		Doc: fmt.Sprintf("%d kinds of read through the encrypting store of 8 events of 3 subjects and a plain one, both ways of advancing, looking at each record once or twice, where of one subject or of all, from the first or a later record on, %q: the records before the first one that cannot be decrypted are delivered in plain text, that one and later ones never, the iterator's error is set and it stays stopped; once the cause is gone everything is readable again", len(reads), causes),
		Cfg: ctl.Config{Background: bgLevelDB},
		Body: func(x *ctl.X) {
			parent := []string{"mem", "ldb"}[x.ChooseF(2, 0, func(i int) string { return []string{"mem", "ldb"}[i] })]
			rd := reads[x.ChooseF(len(reads), 0, func(i int) string { return "read " + reads[i].name })]
			how := x.ChooseF(2, 0, func(i int) string { return []string{"Next", "NextContext"}[i] })
			looks := 1 + x.ChooseF(2, 0, func(i int) string { return fmt.Sprint(i+1, " looks") })
			cause := x.ChooseF(len(causes), 0, func(i int) string { return causes[i] })
			victims := []string{"a", "b", "c", "abc"}
			victim := victims[x.ChooseF(len(victims), 0, func(i int) string { return "subject " + victims[i] })]
			after := x.ChooseF(5, 0, func(i int) string { return fmt.Sprint("after ", i, " records") })
			s := openEnc(x, parent, false, "memory", 0)
			defer s.Close()
			keys := &oddKeys{KeyStore: s.keys}
			ee := eventencryptor.New(keys, encCiphers[0].mk())
			ee.SetRandReader(&countReader{})
			s.enc = encryptedstore.New(s.St, ee)
			s.save(custStream("a"), -1, false, "", signedUp("a", 0))
			s.save(custStream("b"), -1, false, "", signedUp("b", 2), birth("b"))
			s.save("other!1", -1, false, "", &Ev{Typ: "other", ID: "1", P: "p"})
			s.save(custStream("c"), -1, false, "", birth("c"))
			s.save(custStream("b"), -1, false, "", signedUp("b", 3))
			s.save(custStream("a"), -1, false, "", birth("a"), signedUp("a", 2))
			for i := range s.m.Recs {
				s.m.Recs[i].GSN = uint64(i + 1)
			}
			want := s.expect(rd.want)
			n, hit := 0, false // how many records can be read
			for ; n < len(want) && !hit; n++ {
				if r := want[n]; n >= after && r.EvType != "Ev" && strings.Contains(victim, r.ID) {
					hit = true
					break
				}
			}
			failed, got := false, 0
			other, _ := s.keys.Get("a")
			if victim == "a" || victim == "abc" {
				other = base64.StdEncoding.EncodeToString([]byte(strings.Repeat("k", 32)))
			}
			keys.get = func(subject string) (string, error) {
				if !strings.Contains(victim, subject) {
					return "", nil
				}
				if got < after || causes[cause] == "key store fails once" && failed {
					return "", nil
				}
				failed = true
				switch causes[cause] {
				case "key not found":
					return "", crypto.ErrKeyNotFound
				case "another key":
					return other, nil
				case "no key":
					return "=", nil
				}
				return "", errLayer
			}
			it := rd.open(s)
			what := fmt.Sprintf("%s: read %s, %s for %s after %d records", parent, rd.name, causes[cause], victim, after)
			for step(it, how) {
				var r *rangedb.Record
				for l := 0; l < looks; l++ {
					r = it.Record()
				}
				if r == nil {
					if it.Err() == nil {
						x.FailSig("nil-record", "%s: no record %d and no error", what, got)
						return
					}
					continue
				}
				if got >= n {
					x.FailSig("wrong-records", "%s delivered %s %s after %d records", what, r.StreamName, js(r.Data), got)
					return
				}
				if msg := s.same(r, js(r.Data), want[got]); msg != "" {
					x.FailSig("wrong-records", "%s: record %d: %s", what, got, msg)
					return
				}
				got++
			}
			err := it.Err()
			if got != n || hit != (err != nil) {
				x.FailSig("silent-end", "%s ended after %d of %d readable records with error %v", what, got, n, err)
			}
			for i := 0; i < 3; i++ {
				if step(it, i%2) || it.Record() != nil && hit {
					x.FailSig("resumed", "%s: resumed after %v", what, err)
					return
				}
				if err != nil && it.Err() == nil {
					x.FailSig("error-lost", "%s: the error %v is gone", what, err)
				}
			}
			keys.get = nil
			s.readAll("again", s.enc.Events(s.ctx, 0), s.m.Recs, 1, false)
			x.Observe("%s %d %v", rd.name, got, err)
		}}
}
