package h

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"strconv"
	"strings"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedbapi"
	"github.com/inklabs/rangedb/pkg/rangedberror"

	"verifmc/ctl"
	"verifmc/explore"
)

var httpFormats = []string{"json", "ndjson", "msgpack"}

// httpStore is a store whose saves, deletes and reads (from the start) go
// through the HTTP API; the rest goes to the store behind it.
type httpStore struct {
	rangedb.Store
	x     *ctl.X
	h     http.Handler
	gzip  bool
	bound []rangedb.Event
}

func newHTTPStore(x *ctl.X, st rangedb.Store) *httpStore {
	h, err := rangedbapi.New(rangedbapi.WithStore(st))
	if err != nil {
		x.FailSig("server", "HTTP API: %v", err)
		return nil
	}
	return &httpStore{Store: st, x: x, h: h, bound: []rangedb.Event{&Ev{}}}
}

// Bind binds at the client only.
func (s *httpStore) Bind(events ...rangedb.Event) { s.bound = append(s.bound, events...) }

type httpAnswer struct {
	code    int
	body    []byte
	aborted bool // the connection was broken off: the client sees an incomplete answer
}

func (a httpAnswer) String() string {
	if a.aborted {
		return "connection broken off"
	}
	return fmt.Sprintf("%d %.300q", a.code, a.body)
}

// limitWriter fails after some bytes, as the connection of a client that went away.
type limitWriter struct {
	*httptest.ResponseRecorder
	left int
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if w.left >= 0 && len(p) > w.left {
		n := w.left
		w.left = 0
		_, _ = w.ResponseRecorder.Write(p[:n])
		return n, errWrite
	}
	if w.left >= 0 {
		w.left -= len(p)
	}
	return w.ResponseRecorder.Write(p)
}

func serveHTTP(h http.Handler, r *http.Request, limit int) (a httpAnswer) {
	rec := httptest.NewRecorder()
	var w http.ResponseWriter = rec
	if limit >= 0 {
		w = &limitWriter{rec, limit}
	}
	func() {
		defer func() {
			if e := recover(); e == http.ErrAbortHandler {
				a.aborted = true
			} else if e != nil {
				panic(e)
			}
		}()
		h.ServeHTTP(w, r)
	}()
	a.code, a.body = rec.Code, rec.Body.Bytes()
	if rec.Header().Get("Content-Encoding") == "gzip" && !a.aborted && limit < 0 {
		g, err := gzip.NewReader(bytes.NewReader(a.body))
		if err == nil {
			a.body, err = io.ReadAll(g)
		}
		if err != nil {
			a.aborted = true
		}
	}
	return a
}

func (s *httpStore) do(ctx context.Context, method, path, body string, hdr ...string) httpAnswer {
	r := httptest.NewRequest(method, "http://h"+path, strings.NewReader(body)).WithContext(ctx)
	for i := 0; i < len(hdr); i += 2 {
		r.Header.Set(hdr[i], hdr[i+1])
	}
	if s.gzip {
		r.Header.Set("Accept-Encoding", "gzip")
	}
	return serveHTTP(s.h, r, -1)
}

var unexpectedRx = regexp.MustCompile(`^unexpected sequence number: (\d+), actual: (\d+)$`)

// failure translates an error answer; a success that is no success is reported.
func (s *httpStore) failure(what string, a httpAnswer) error {
	if a.aborted {
		return errors.New("connection broken off")
	}
	if a.code < 400 {
		s.x.FailSig("answer", "%s is answered with %s", what, a)
	}
	var m struct{ Status, Message string }
	d := json.NewDecoder(bytes.NewReader(a.body))
	if err := d.Decode(&m); err != nil || m.Status != "Failed" {
		s.x.FailSig("answer", "%s is answered with %s, which is no JSON failure message", what, a)
	}
	if x := unexpectedRx.FindStringSubmatch(m.Message); x != nil && a.code == 409 {
		e, _ := strconv.ParseUint(x[1], 10, 64)
		c, _ := strconv.ParseUint(x[2], 10, 64)
		return &rangedberror.UnexpectedSequenceNumber{Expected: e, ActualSequenceNumber: c}
	}
	if a.code == 404 {
		return rangedb.ErrStreamNotFound
	}
	return fmt.Errorf("%d %s", a.code, m.Message)
}

func saveBody(ers []*rangedb.EventRecord) string {
	list := []map[string]interface{}{}
	for _, er := range ers {
		list = append(list, map[string]interface{}{"aggregateType": er.Event.AggregateType(), "aggregateID": er.Event.AggregateID(), "eventType": er.Event.EventType(),
			"data": er.Event, "metadata": er.Metadata})
	}
	return js(list)
}

func (s *httpStore) save(ctx context.Context, exp, name string, ers []*rangedb.EventRecord) (uint64, error) {
	hdr := []string{"Content-Type", "application/json"}
	if exp != "" {
		hdr = append(hdr, "ExpectedStreamSequenceNumber", exp)
	}
	what := fmt.Sprintf("saving %d events", len(ers))
	a := s.do(ctx, "POST", "/save-events/"+url.PathEscape(name), saveBody(ers), hdr...)
	if a.aborted || a.code != 201 {
		return 0, s.failure(what, a)
	}
	var m struct {
		Status               string
		StreamSequenceNumber *uint64
	}
	if err := json.Unmarshal(a.body, &m); err != nil || m.Status != "OK" || m.StreamSequenceNumber == nil {
		s.x.FailSig("answer", "%s is answered with %s", what, a)
		return 0, nil
	}
	return *m.StreamSequenceNumber, nil
}

func (s *httpStore) Save(ctx context.Context, name string, ers ...*rangedb.EventRecord) (uint64, error) {
	return s.save(ctx, "", name, ers)
}

func (s *httpStore) OptimisticSave(ctx context.Context, exp uint64, name string, ers ...*rangedb.EventRecord) (uint64, error) {
	return s.save(ctx, fmt.Sprint(exp), name, ers)
}

func (s *httpStore) OptimisticDeleteStream(ctx context.Context, exp uint64, name string) error {
	a := s.do(ctx, "POST", "/delete-stream/"+url.PathEscape(name), "", "ExpectedStreamSequenceNumber", fmt.Sprint(exp))
	if a.aborted || a.code != 200 {
		return s.failure("deleting", a)
	}
	var m struct {
		Status        string
		EventsDeleted *uint64
	}
	if err := json.Unmarshal(a.body, &m); err != nil || m.Status != "OK" || m.EventsDeleted == nil || *m.EventsDeleted != exp {
		s.x.FailSig("answer", "deleting a stream at %d is answered with %s", exp, a)
	}
	return nil
}

// parse reads an answer in a format.
func (s *httpStore) parse(format int, a httpAnswer) ([]*rangedb.Record, error) {
	st := ioFormats[format].make()
	st.Bind(s.bound...)
	var r io.Reader = bytes.NewReader(a.body)
	if format == 2 {
		r = base64.NewDecoder(base64.RawStdEncoding, r)
	}
	return readStream(st, r)
}

// get reads from an endpoint in every format; the answers must agree.
func (s *httpStore) get(ctx context.Context, path string, after func(*rangedb.Record) bool) rangedb.RecordIterator {
	var got [3][]*rangedb.Record
	var errs [3]error
	for f := range httpFormats {
		a := s.do(ctx, "GET", path+"."+httpFormats[f], "")
		if a.aborted || a.code != 200 {
			errs[f] = s.failure("GET "+path, a)
			continue
		}
		recs, err := s.parse(f, a)
		if err != nil {
			s.x.FailSig("answer", "GET %s.%s is answered with a complete body that does not parse: %v: %s", path, httpFormats[f], err, a)
		}
		got[f] = recs
	}
	for f := 1; f < 3; f++ {
		same := len(got[0]) == len(got[f]) && errKind(errs[0]) == errKind(errs[f])
		for i := 0; same && i < len(got[0]); i++ {
			same = recDiff(got[0][i], got[f][i], false) == "" || numbersAsStrings(got[0][i], got[f][i], false)
		}
		if !same {
			s.x.FailSig("formats", "GET %s: json %s %v, %s %s %v", path, recsOf(got[0]), errs[0], httpFormats[f], recsOf(got[f]), errs[f])
		}
	}
	var recs []*rangedb.Record
	for _, r := range got[0] {
		if after(r) {
			recs = append(recs, r)
		}
	}
	return chanIter(recs, errs[0])
}

func recsOf(rs []*rangedb.Record) string {
	var l []Rec
	for _, r := range rs {
		l = append(l, toRec(r))
	}
	return shortRecs(l)
}

func (s *httpStore) Events(ctx context.Context, from uint64) rangedb.RecordIterator {
	return s.get(ctx, "/all-events", func(r *rangedb.Record) bool { return r.GlobalSequenceNumber >= from })
}

func (s *httpStore) EventsByAggregateTypes(ctx context.Context, from uint64, types ...string) rangedb.RecordIterator {
	if len(types) == 0 {
		return s.Store.EventsByAggregateTypes(ctx, from)
	}
	var l []string
	for _, t := range types {
		l = append(l, url.PathEscape(t))
	}
	return s.get(ctx, "/events-by-aggregate-type/"+strings.Join(l, ","), func(r *rangedb.Record) bool { return r.GlobalSequenceNumber >= from })
}

func (s *httpStore) EventsByStream(ctx context.Context, from uint64, name string) rangedb.RecordIterator {
	return s.get(ctx, "/events-by-stream/"+url.PathEscape(name), func(r *rangedb.Record) bool { return r.StreamSequenceNumber >= from })
}

// httpBodiesHarness: damaged and unusual request bodies.
func httpBodiesHarness() *explore.Harness {
	good := `[{"aggregateType":"ta","aggregateID":"1","eventType":"Ev","data":{"typ":"ta","id":"1","p":"x"},"metadata":{"m":[1,null]}},{"aggregateType":"ta","aggregateID":"1","eventType":"Ev","data":{"typ":"ta","id":"1","p":"y"}}]`
	ev := `{"aggregateType":"ta","aggregateID":"1","eventType":"Ev","data":{"p":"x"}}`
	bodies := []string{"", " ", "null", "[]", "{}", "[null]", "[[]]", "1", `"x"`, "[" + ev + "]", ev, "[" + ev + "]x", "[" + ev + "] ", "[" + ev + "][]", "[" + ev + "," + ev + "]", "[" + ev + "," + ev + ",]", "[" + ev + " " + ev + "]",
		`[{"aggregateType":"ta","aggregateID":"1","eventType":"Ev"}]`, `[{"aggregateType":"ta","aggregateID":"1","eventType":"Ev","data":null}]`, `[{"aggregateType":1,"aggregateID":"1","eventType":"Ev","data":{}}]`,
		`[{"aggregateType":"ta","aggregateID":"1","eventType":"Ev","data":[1e999]}]`, `[{"aggregateType":"ta","aggregateID":"1","eventType":"Ev","data":1,"metadata":-1e999}]`,
		"[" + ev + `,{"aggregateType":"tb","aggregateID":"1","eventType":"Ev","data":1}]`, "[" + ev + `,{"aggregateType":"ta","aggregateID":"2","eventType":"Ev","data":1}]`, "[" + ev + `,{"aggregateType":"ta","aggregateID":"1","eventType":"Ev","data":null}]`}
	for i := range good {
		bodies = append(bodies, good[:i])
	}
	for i := range good {
		for _, c := range []byte(`{}[]",:0x`) {
			if good[i] != c {
				bodies = append(bodies, good[:i]+string(c)+good[i+1:])
			}
		}
	}
	for _, tail := range []string{"]", "}", "0", "null", ",", "x", " ", "\n", "\x00", good} {
		bodies = append(bodies, good+tail)
	}
	exps := []string{"", "0", "1", "2", "3", "-1", "x", "18446744073709551616", "1 ", "0x1"}
	return &explore.Harness{Name: "bodies", ExecsPerGC: 20, Cfg: ctl.Config{Background: bgLevelDB, MaxSteps: 50000000},
		Doc: fmt.Sprintf("%d request bodies (every prefix, every change of a character to one of 9, and suffixes of a valid one; null, wrong types, missing and unstorable values) with %d expected-sequence headers (valid, wrong, malformed) and content types, on a stream with 2 events; oracle: accepted if and only if the body is one JSON list of events with storable data and the store takes them; on acceptance the events are stored as given and the right number is answered, otherwise the answer is an error and nothing changed", len(bodies), len(exps)),
		Body: func(x *ctl.X) {
			kind := embedded[x.ChooseF(2, 0, func(i int) string { return embedded[i] + " store" })]
			exp := exps[x.ChooseF(len(exps), 0, func(i int) string { return fmt.Sprintf("expected %q", exps[i]) })]
			const per = 100
			lo := per * x.ChooseF((len(bodies)+per-1)/per, 0, func(i int) string { return fmt.Sprintf("bodies from %d", per*i) })
			e := openStore(x, kind, false)
			defer e.Close()
			s := newHTTPStore(x, e.St)
			if s == nil {
				return
			}
			n := uint64(0)
			for i := 0; i < 2; i++ {
				if _, err := e.St.Save(bgCtx, "s", &rangedb.EventRecord{Event: &Ev{Typ: "ta", ID: "1", P: fmt.Sprint(i)}}); err != nil {
					x.FailSig("save", "%v", err)
					return
				}
				n++
			}
			base := n
			for i := lo; i < lo+per && i < len(bodies); i++ {
				body := bodies[i]
				hdr := []string{"Content-Type", "application/json"}
				if exp != "" {
					hdr = append(hdr, "ExpectedStreamSequenceNumber", exp)
				}
				a := s.do(bgCtx, "POST", "/save-events/s", body, hdr...)
				what := fmt.Sprintf("body %.400q with expected %q on a stream at %d", body, exp, base)
				evs, ok := bodyEvents(body)
				if ok && exp != "" {
					v, err := strconv.ParseUint(exp, 10, 64)
					ok = err == nil && v == base
				}
				got, err := drain(e.St.EventsByStream(bgCtx, base+1, "s"))
				if err != nil {
					x.FailSig("poisoned", "%s, answered with %s: the stream cannot be read afterwards: %v", what, a, err)
					return
				}
				if !ok {
					if a.code < 400 && !a.aborted {
						x.FailSig("accepted", "%s is answered with %s", what, a)
						return
					}
					if len(got) > 0 {
						x.FailSig("changed", "%s is answered with %s, but the stream now has %s", what, a, showRecs(got))
						return
					}
					continue
				}
				if a.code != 201 {
					x.FailSig("refused", "%s is answered with %s", what, a)
					return
				}
				var m struct {
					Status               string
					StreamSequenceNumber uint64
				}
				if json.Unmarshal(a.body, &m) != nil || m.Status != "OK" || m.StreamSequenceNumber != base+uint64(len(evs)) {
					x.FailSig("answer", "%s, of %d events, is answered with %s", what, len(evs), a)
				}
				if len(got) != len(evs) {
					x.FailSig("stored", "%s: %d events stored, %d sent", what, len(got), len(evs))
					return
				}
				for k, it := 0, e.St.EventsByStream(bgCtx, base+1, "s"); it.Next(); k++ {
					r := it.Record()
					want := &rangedb.Record{StreamName: "s", AggregateType: evs[k].AggregateType, AggregateID: evs[k].AggregateID, EventType: evs[k].EventType, Metadata: evs[k].Metadata,
						Data: evs[k].Data, GlobalSequenceNumber: r.GlobalSequenceNumber, StreamSequenceNumber: base + uint64(k) + 1, InsertTimestamp: r.InsertTimestamp, EventID: r.EventID}
					if r.EventType == "Ev" { // bound: compare what an Ev keeps
						want.Data = &Ev{Typ: field(evs[k].Data, "typ"), ID: field(evs[k].Data, "id"), P: field(evs[k].Data, "p")}
					}
					if d := recDiff(want, r, false); d != "" {
						x.FailSig("stored", "%s: event %d is stored wrong: %s", what, k, d)
						return
					}
				}
				base += uint64(len(evs))
				if exp != "" { // start over
					if err := e.St.OptimisticDeleteStream(bgCtx, base, "s"); err != nil {
						x.FailSig("delete", "%v", err)
						return
					}
					base = 0
					// (a stream that was deleted starts at 1 again; bring it back to where it was)
					for i := uint64(0); i < n; i++ {
						if _, err := e.St.Save(bgCtx, "s", &rangedb.EventRecord{Event: &Ev{Typ: "ta", ID: "1", P: fmt.Sprint(i)}}); err != nil {
							x.FailSig("save", "%v", err)
							return
						}
						base++
					}
				}
			}
			x.Observe("%d %s %s", lo, exp, kind)
			x.Count(per)
		}}
}

func field(v interface{}, k string) string {
	m, _ := v.(map[string]interface{})
	s, _ := m[k].(string)
	return s
}

type bodyEvent struct {
	AggregateType, AggregateID, EventType string
	Data, Metadata                        interface{}
}

// bodyEvents reads a request body strictly (an independent statement of which
// bodies are acceptable): one JSON list of at least one event, all of one
// aggregate, with data that is stored as JSON.
func bodyEvents(body string) ([]bodyEvent, bool) {
	if !json.Valid([]byte(body)) {
		return nil, false
	}
	var raw []map[string]json.RawMessage
	if json.Unmarshal([]byte(body), &raw) != nil || len(raw) == 0 {
		return nil, false
	}
	var evs []bodyEvent
	for _, m := range raw {
		var e bodyEvent
		for k, v := range m {
			var to interface{}
			switch strings.ToLower(k) {
			case "aggregatetype":
				to = &e.AggregateType
			case "aggregateid":
				to = &e.AggregateID
			case "eventtype":
				to = &e.EventType
			case "data":
				to = &e.Data
			case "metadata":
				to = &e.Metadata
			default:
				continue
			}
			d := json.NewDecoder(bytes.NewReader(v))
			d.UseNumber()
			if d.Decode(to) != nil {
				return nil, false
			}
		}
		if e.Data == nil || !representable(e.Data) || !representable(e.Metadata) {
			return nil, false
		}
		if e.EventType == "Ev" { // bound in the store
			var ev Ev
			for k, v := range m {
				if strings.EqualFold(k, "data") && json.Unmarshal(v, &ev) != nil {
					return evs, false
				}
			}
		}
		if len(evs) > 0 && (e.AggregateType != evs[0].AggregateType || e.AggregateID != evs[0].AggregateID) {
			return nil, false
		}
		evs = append(evs, e)
	}
	return evs, true
}

// representable: every number is an integer of 64 bits or a finite float.
func representable(v interface{}) bool {
	switch t := v.(type) {
	case json.Number:
		_, err := t.Float64()
		return err == nil
	case []interface{}:
		for _, e := range t {
			if !representable(e) {
				return false
			}
		}
	case map[string]interface{}:
		for _, e := range t {
			if !representable(e) {
				return false
			}
		}
	}
	return true
}

// httpFaultHarness: reads that fail part way, clients that go away, and stores that fail.
func httpFaultHarness() *explore.Harness {
	errs := []error{errRead, context.Canceled, io.EOF, rangedb.ErrStreamNotFound, fmt.Errorf("wrapped: %w", rangedb.ErrStreamNotFound), &rangedberror.UnexpectedSequenceNumber{Expected: 1, ActualSequenceNumber: 2}, errors.New(`with "quotes" and {braces}`)}
	paths := []string{"/all-events", "/events-by-stream/ta!1", "/events-by-aggregate-type/ta", "/events-by-aggregate-type/ta,tb"}
	return &explore.Harness{Name: "faults", ExecsPerGC: 50, Cfg: ctl.Config{Background: bgLevelDB, MaxSteps: 50000000},
		Doc: fmt.Sprintf("the store fails with each of %d errors after each of 0..3 records of a read by every endpoint in every format, plain and compressed: the answer is an error or an aborted connection, and a complete answer only without failure; a connection that breaks after each number of bytes does not hang or crash; saves and deletes that fail in the store are answered with an error", len(errs)),
		Body: func(x *ctl.X) {
			what := x.ChooseF(3, 0, func(i int) string {
				return []string{"failing read", "breaking connection", "failing save or delete"}[i]
			})
			switch what {
			case 0:
				ei := x.ChooseF(len(errs)+1, 0, func(i int) string {
					if i == len(errs) {
						return "no error"
					}
					return fmt.Sprintf("error %q", errs[i])
				})
				n := x.ChooseF(4, 0, func(i int) string { return fmt.Sprint("after ", i, " records") })
				zip := x.ChooseF(2, 0, func(i int) string { return []string{"plain", "compressed"}[i] }) == 1
				f := &faultyStore{Store: openStore(x, "mem", false).St}
				if ei < len(errs) {
					f.err = errs[ei]
				}
				f.recs = append(f.recs, streamRecs()[:min(n, 3)]...)
				s := &httpStore{x: x}
				if h := newHTTPStoreOver(x, f); h != nil {
					s = h
				} else {
					return
				}
				s.gzip = zip
				for _, p := range paths {
					for fi, format := range httpFormats {
						a := s.do(bgCtx, "GET", p+"."+format, "")
						if f.err != nil {
							if !a.aborted && a.code < 400 {
								x.FailSig("complete", "GET %s.%s, whose read fails with %q after %d records, is answered completely with %s", p, format, f.err, len(f.recs), a)
								return
							}
							if !a.aborted && f.err == rangedb.ErrStreamNotFound && a.code != 404 {
								x.FailSig("code", "GET %s.%s of a stream that is not found is answered with %s", p, format, a)
							}
							continue
						}
						recs, err := s.parse(fi, a)
						if a.aborted || a.code != 200 || err != nil || len(recs) != len(f.recs) {
							x.FailSig("read", "GET %s.%s of %d records is answered with %s (%d records, %v)", p, format, len(f.recs), a, len(recs), err)
							return
						}
						for i := range recs {
							if d := recDiff(f.recs[i], recs[i], false); d != "" {
								x.FailSig("read", "GET %s.%s: record %d: %s", p, format, i, d)
								return
							}
						}
					}
				}
				x.Observe("%d %d", ei, n)
			case 1:
				f := &faultyStore{Store: openStore(x, "mem", false).St, recs: streamRecs()}
				s := newHTTPStoreOver(x, f)
				if s == nil {
					return
				}
				base := len(x.Goroutines())
				for _, p := range paths {
					for _, format := range httpFormats {
						for limit := 0; limit < 1500; limit += 7 {
							r := httptest.NewRequest("GET", "http://h"+p+"."+format, nil)
							a := serveHTTP(s.h, r, limit)
							if a.aborted {
								continue
							}
						}
					}
				}
				x.Quiesce()
				if g := len(x.Goroutines()); g != base {
					x.FailSig("leak", "%d goroutines left after broken connections, %d before: %s", g, base, x.Describe())
				}
			case 2:
				ei := x.ChooseF(len(errs), 0, func(i int) string { return fmt.Sprintf("error %q", errs[i]) })
				f := &faultyStore{Store: openStore(x, "mem", false).St, err: errs[ei]}
				s := newHTTPStoreOver(x, f)
				if s == nil {
					return
				}
				er := &rangedb.EventRecord{Event: &Ev{Typ: "ta", ID: "1"}}
				_, e1 := s.Save(bgCtx, "ta!1", er)
				_, e2 := s.OptimisticSave(bgCtx, 1, "ta!1", er)
				e3 := s.OptimisticDeleteStream(bgCtx, 1, "ta!1")
				for i, e := range []error{e1, e2, e3} {
					if e == nil {
						x.FailSig("accepted", "operation %d, which fails with %q in the store, is answered as a success", i, f.err)
					} else if k := errKind(f.err); strings.HasPrefix(k, "unexpected") && errKind(e) != k || k == "notfound" && i == 2 && errKind(e) != k {
						x.FailSig("kind", "operation %d, which fails with %q in the store, is answered with %q", i, f.err, e)
					}
				}
				if f.seen != 3 {
					x.FailSig("repeated", "3 requests that the store refuses are %d calls of it", f.seen)
				}
				x.Observe("%v %v %v", e1, e2, e3)
			}
		}}
}

func newHTTPStoreOver(x *ctl.X, f *faultyStore) *httpStore {
	recs, err := f.recs, f.err
	f.recs, f.err = nil, nil // its projection subscribes without failures
	s := newHTTPStore(x, f)
	f.recs, f.err = recs, err
	if s != nil {
		s.bound = nil
	}
	return s
}

// httpValuesHarness: event and metadata values through the HTTP API.
func httpValuesHarness() *explore.Harness {
	ints := map[string]interface{}{"n": uint64(math.MaxUint64), "m": int64(math.MinInt64), "f": 0.1, "i": 1<<53 + 1}
	return &explore.Harness{Name: "values", ExecsPerGC: 50, Cfg: ctl.Config{Background: bgLevelDB, MaxSteps: 50000000},
		Doc: "events of every kind of value (3 wide events, generic and raw payloads) with 8 kinds of metadata, saved through the HTTP API or directly: read by every endpoint in every format, bound and unbound, and directly, all equal to what was saved; over the in-memory store and LevelDB with both serializers",
		Body: func(x *ctl.X) {
			kinds := []string{"mem", "ldb", "ldb-mp"}
			kind := kinds[x.ChooseF(3, 0, func(i int) string { return kinds[i] + " store" })]
			var evs []rangedb.Event
			evs = append(evs, boundData()...)
			for i, g := range append(genericData(), ints) {
				if g != nil {
					evs = append(evs, rangedb.NewRawEvent("wide", fmt.Sprint("g", i), "Unknown", g))
				}
			}
			ei := x.ChooseF(len(evs), 0, func(i int) string { return fmt.Sprintf("event %.100s", js(evs[i])) })
			ms := append(metas(), ints)
			mi := x.ChooseF(len(ms), 0, func(i int) string { return "metadata " + js(ms[i]) })
			via := x.ChooseF(3, 0, func(i int) string { return []string{"Save", "OptimisticSave", "saved directly"}[i] })
			e := openStore(x, kind, false)
			defer e.Close()
			s := newHTTPStore(x, e.St)
			if s == nil {
				return
			}
			s.gzip = (ei+mi)%4 == 0
			er := &rangedb.EventRecord{Event: evs[ei], Metadata: ms[mi]}
			var err error
			switch via {
			case 0:
				_, err = s.Save(bgCtx, "w!1", er)
			case 1:
				_, err = s.OptimisticSave(bgCtx, 0, "w!1", er)
			case 2:
				_, err = e.St.Save(bgCtx, "w!1", er)
			}
			if err != nil {
				x.FailSig("save", "saving %s fails: %v", js(evs[ei]), err)
				return
			}
			want := &rangedb.Record{StreamName: "w!1", AggregateType: "wide", AggregateID: evs[ei].AggregateID(), GlobalSequenceNumber: 1, StreamSequenceNumber: 1,
				EventType: evs[ei].EventType(), Data: evs[ei], Metadata: ms[mi], InsertTimestamp: 1600000001, EventID: "u1"}
			look := func(what string, st rangedb.Store, bound bool) {
				for k, it := range []rangedb.RecordIterator{st.Events(bgCtx, 0), st.EventsByAggregateTypes(bgCtx, 0, "wide"), st.EventsByStream(bgCtx, 0, "w!1")} {
					if !it.Next() {
						x.FailSig("read", "%s: %s yields nothing: %v", what, getKinds[k], it.Err())
						return
					}
					r := it.Record()
					if d := recDiff(want, r, bound && evs[ei].EventType() == "WideEv"); d != "" && !(kind == "ldb-mp" && via == 2 && numbersAsStrings(want, r, false)) { // (see C16)
						x.FailSig("altered", "%s: %s: %s", what, getKinds[k], d)
						return
					}
					if it.Next() || it.Err() != nil {
						x.FailSig("read", "%s: %s: more records or error %v", what, getKinds[k], it.Err())
					}
				}
			}
			look("unbound client", s, false)
			look("directly, unbound", e.St, false)
			x.Observe("%d %d %d", ei, mi, via)
		}}
}

// httpNamesHarness: stream names and aggregate types of every kind in URLs.
func httpNamesHarness() *explore.Harness {
	names := []string{"ta!1", "thing-1", "a/b", "/", "a//b/", "a.json", "a.json.ndjson", "a b", "é", "a%2Fb", "a?b=c", "a#b", "a&b;c", "a,b", "100%", "+", "~", "..a", "a..", "v2", "a_b", "A.B", "{x}", "\"q\"", "<b>", "a:b", "@", "日本"}
	return &explore.Harness{Name: "names", ExecsPerGC: 50, Cfg: ctl.Config{Background: bgLevelDB},
		Doc: fmt.Sprintf("every pair of %d stream names and aggregate types (with dots, extensions, percent signs, spaces, quotes and other characters, escaped as a URL requires), one event each, saved, read by stream and by type in every format, and deleted; oracle: as the store", len(names)),
		Body: func(x *ctl.X) {
			a := names[x.ChooseF(len(names), 0, func(i int) string { return fmt.Sprintf("%q", names[i]) })]
			b := names[x.ChooseF(len(names), 0, func(i int) string { return fmt.Sprintf("and %q", names[i]) })]
			e := openStore(x, "mem", false)
			s := newHTTPStore(x, e.St)
			if s == nil {
				return
			}
			l := []string{a, b}
			if a == b {
				l = l[:1]
			}
			for i, n := range l {
				if v, err := s.Save(bgCtx, n, &rangedb.EventRecord{Event: &Ev{Typ: n, ID: fmt.Sprint(i), P: "x"}}); err != nil || v != 1 {
					x.FailSig("save", "saving into %q: %d, %v", n, v, err)
					return
				}
			}
			same := func(what string, got, want rangedb.RecordIterator) {
				g, ge := drain(got)
				w, we := drain(want)
				if !recsEqual(g, w) || errKind(ge) != errKind(we) {
					x.FailSig("read", "%s: %s %v, the store has %s %v", what, shortRecs(g), ge, shortRecs(w), we)
				}
			}
			for _, n := range l {
				same(fmt.Sprintf("stream %q", n), s.EventsByStream(bgCtx, 0, n), e.St.EventsByStream(bgCtx, 0, n))
				if !strings.Contains(n, ",") {
					same(fmt.Sprintf("type %q", n), s.EventsByAggregateTypes(bgCtx, 0, n), e.St.EventsByAggregateTypes(bgCtx, 0, n))
				}
			}
			if !strings.Contains(a+b, ",") {
				same(fmt.Sprintf("types %q", l), s.EventsByAggregateTypes(bgCtx, 0, l...), e.St.EventsByAggregateTypes(bgCtx, 0, l...))
			}
			if err := s.OptimisticDeleteStream(bgCtx, 1, a); err != nil {
				x.FailSig("delete", "deleting %q: %v", a, err)
			}
			for _, n := range l {
				same(fmt.Sprintf("stream %q after deleting %q", n, a), s.EventsByStream(bgCtx, 0, n), e.St.EventsByStream(bgCtx, 0, n))
			}
			x.Observe("%q %q", a, b)
		}}
}

func init() {
	hs := seqSpec{name: "http", kinds: []string{"http-mem", "http-ldb"}, names: []string{"ta!1", "ta!2", "tb!1", "odd", "never"}, types: []string{"ta", "tb", "other"},
		doc: "saved, deleted and read (in all three formats) through the HTTP API, with subscriptions at the store", setup: func(s *seq) { s.subscribe("all", 0); s.subscribe("ta", 0, "ta") },
		ops: append(saveOps("ta!1", "ta", "1"), seqOp{"save notype,othertype", func(s *seq) { s.save("ta!1", saveOpt{}, s.ev("", "1", "a"), s.ev("ta", "1", "b")) }},
			save1("ta!2", "ta", "2"), saveN(2, "tb!1", "tb", "1"), save1("odd", "ta", "1"),
			del("ta!1", "c"), del("ta!1", "+1"), del("ta!1", "max"), del("never", "0")), quick: 3, thorough: 4, fullLast: true}.harnesses()
	hs = append(hs, httpBodiesHarness(), httpFaultHarness(), httpValuesHarness(), httpNamesHarness(), concHarness("optimistic", "http-mem", optAlphabet, 2, false, 1, 2, false))
	explore.Register(&explore.Property{ID: "C18", Level: "model_checking", Rule: seqRule, Assumptions: append([]string{"requests are given to the API's handler directly; net/http is not part of what is explored"}, seqAssume...),
		Harnesses: hs})
}
