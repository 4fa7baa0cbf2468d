package h

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/jsonrecordiostream"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/provider/msgpackrecordiostream"
	"github.com/inklabs/rangedb/provider/msgpackrecordserializer"
	"github.com/inklabs/rangedb/provider/ndjsonrecordiostream"

	"verifmc/ctl"
	"verifmc/explore"
)

// wideEv is an event with one field of every common kind.
type wideEv struct {
	ID   string `json:"id"`
	S    string `json:"s"`
	I    int64
	U    uint64             `json:"u"`
	F    float64            `json:"f"`
	B    bool               `json:"b,omitempty"`
	Raw  []byte             `json:"raw"`
	List []string           `json:"list"`
	M    map[string]int64   `json:"m"`
	P    *string            `json:"p"`
	T    time.Time          `json:"t"`
	N    struct{ A, B int } `json:"n"`
	G    interface{}        `json:"g"`
	I8   int8
	J    json.Number
	Skip string `json:"-"`
}

func (e *wideEv) AggregateID() string   { return e.ID }
func (e *wideEv) AggregateType() string { return "wide" }
func (e *wideEv) EventType() string     { return "WideEv" }

type badEv struct{ C chan int }

func (e *badEv) AggregateID() string   { return "x" }
func (e *badEv) AggregateType() string { return "bad" }
func (e *badEv) EventType() string     { return "BadEv" }

// canonical is the value in comparable form: its JSON text with sorted keys and
// full-precision numbers, times as instants.
func canonical(v interface{}) string {
	if w, ok := v.(*wideEv); ok {
		if w == nil {
			return "null"
		}
		c := *w
		c.T = c.T.UTC()
		v = &c
	}
	b, err := json.Marshal(v)
	if err != nil {
		return "!" + err.Error()
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var g interface{}
	if err := d.Decode(&g); err != nil {
		return "!" + err.Error()
	}
	b, _ = json.Marshal(canonNum(g))
	return string(b)
}

// canonNum writes numbers in one form (1e+06 and 1000000 are the same number).
func canonNum(v interface{}) interface{} {
	switch t := v.(type) {
	case map[string]interface{}:
		for k, e := range t {
			t[k] = canonNum(e)
		}
	case []interface{}:
		for i, e := range t {
			t[i] = canonNum(e)
		}
	case json.Number:
		if strings.ContainsAny(string(t), ".eE") {
			if f, err := t.Float64(); err == nil {
				if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
					return json.Number(fmt.Sprintf("%d", int64(f)))
				}
				return fmt.Sprintf("float %v", f)
			}
		}
	}
	return v
}

func recDiff(want, got *rangedb.Record, bound bool) string {
	if got == nil {
		return "no record"
	}
	w, g := *want, *got
	var d []string
	add := func(name string, a, b interface{}) {
		if a != b {
			d = append(d, fmt.Sprintf("%s %.200q became %.200q", name, fmt.Sprint(a), fmt.Sprint(b)))
		}
	}
	add("stream name", w.StreamName, g.StreamName)
	add("aggregate type", w.AggregateType, g.AggregateType)
	add("aggregate ID", w.AggregateID, g.AggregateID)
	add("global sequence number", w.GlobalSequenceNumber, g.GlobalSequenceNumber)
	add("stream sequence number", w.StreamSequenceNumber, g.StreamSequenceNumber)
	add("timestamp", w.InsertTimestamp, g.InsertTimestamp)
	add("event ID", w.EventID, g.EventID)
	add("event type", w.EventType, g.EventType)
	add("data", canonical(w.Data), canonical(g.Data))
	add("metadata", canonical(w.Metadata), canonical(g.Metadata))
	if bound {
		add("data type", reflect.TypeOf(w.Data), reflect.TypeOf(g.Data))
	}
	return strings.Join(d, "; ")
}

// numbersAsStrings reports whether the only differences are json.Numbers that came back as strings.
func numbersAsStrings(want, got *rangedb.Record, bound bool) bool {
	w := *want
	for _, p := range [][2]*interface{}{{&w.Data, &got.Data}, {&w.Metadata, &got.Metadata}} {
		if canonical(*p[0]) == canonical(*p[1]) {
			continue
		}
		if !hasNumber(reflect.ValueOf(*p[0])) {
			return false
		}
		var a, b interface{}
		for v, c := range map[*interface{}]string{&a: canonical(*p[0]), &b: canonical(*p[1])} {
			d := json.NewDecoder(strings.NewReader(c))
			d.UseNumber()
			if d.Decode(v) != nil {
				return false
			}
		}
		if !sameButNumbers(a, b) {
			return false
		}
		w2 := *p[1]
		*p[0] = w2
	}
	return recDiff(&w, got, false) == ""
}

func hasNumber(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		return !v.IsNil() && hasNumber(v.Elem())
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if hasNumber(v.MapIndex(k)) {
				return true
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if hasNumber(v.Index(i)) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if hasNumber(v.Field(i)) {
				return true
			}
		}
	case reflect.String:
		return v.Type() == reflect.TypeOf(json.Number(""))
	}
	return false
}

func sameButNumbers(a, b interface{}) bool {
	switch x := a.(type) {
	case string:
		s, ok := b.(string)
		return a == b || ok && strings.HasPrefix(x, "float ") && canonical(json.Number(s)) == js(x)
	case json.Number:
		s, ok := b.(string)
		return a == b || ok && canonical(json.Number(s)) == canonical(x)
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameButNumbers(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			if v, ok := y[k]; !ok || !sameButNumbers(x[k], v) {
				return false
			}
		}
		return true
	}
	return a == b
}

var errRead = errors.New("device read failure")
var errEOFText = errors.New("EOF")
var errWrite = errors.New("device write failure")

// chunkReader hands out data in the given style and ends with err.
type chunkReader struct {
	data   []byte
	style  int // 0 all at once, 1 single bytes, 2 last bytes together with the error, 3 empty reads between bytes
	split  int // -1 or the position where a first read ends
	err    error
	toggle bool
	off    int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	rest := r.data[r.off:]
	if len(rest) == 0 {
		return 0, r.err
	}
	n := len(rest)
	if r.split > r.off {
		n = r.split - r.off
	}
	switch r.style {
	case 1:
		n = 1
	case 3:
		n = 1
		if r.toggle = !r.toggle; r.toggle {
			return 0, nil
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, rest[:n])
	r.off += n
	if r.style == 2 && r.off == len(r.data) {
		return n, r.err
	}
	return n, nil
}

var readStyles = []string{"all at once", "byte by byte", "last bytes with the end", "with empty reads"}

// failWriter accepts n bytes, then fails.
type failWriter struct {
	buf bytes.Buffer
	n   int
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.buf.Len()+len(p) > w.n {
		k := w.n - w.buf.Len()
		w.buf.Write(p[:k])
		return k, errWrite
	}
	return w.buf.Write(p)
}

type ioFormat struct {
	name string
	make func() rangedb.RecordIoStream
}

var ioFormats = []ioFormat{
	{"json", func() rangedb.RecordIoStream { return jsonrecordiostream.New() }},
	{"ndjson", func() rangedb.RecordIoStream { return ndjsonrecordiostream.New() }},
	{"msgpack", func() rangedb.RecordIoStream { return msgpackrecordiostream.New() }},
}

// scriptIter yields records and then err.
type scriptIter struct {
	recs []*rangedb.Record
	err  error
	i    int
	cur  *rangedb.Record
}

func (s *scriptIter) Next() bool {
	s.cur = nil
	if s.i >= len(s.recs) {
		return false
	}
	s.cur = s.recs[s.i]
	s.i++
	return true
}
func (s *scriptIter) Err() error {
	if s.i >= len(s.recs) && s.cur == nil {
		return s.err
	}
	return nil
}
func (s *scriptIter) Record() *rangedb.Record          { return s.cur }
func (s *scriptIter) NextContext(context.Context) bool { return s.Next() }

func chanIter(recs []*rangedb.Record, err error) rangedb.RecordIterator {
	c := make(chan rangedb.ResultRecord, len(recs)+1)
	for _, r := range recs {
		c <- rangedb.ResultRecord{Record: r}
	}
	if err != nil {
		c <- rangedb.ResultRecord{Err: err}
	}
	close(c)
	return rangedb.NewRecordIterator(c)
}

// writeStream writes through s and returns every error reported.
func writeStream(s rangedb.RecordIoStream, w io.Writer, it rangedb.RecordIterator) []error {
	var errs []error
	for err := range s.Write(w, it) {
		if err != nil {
			errs = append(errs, err)
		}
	}
	return errs
}

// readStream reads to the end.
func readStream(s rangedb.RecordIoStream, r io.Reader) (recs []*rangedb.Record, err error) {
	it := s.Read(r)
	for it.Next() {
		if it.Record() == nil {
			return recs, fmt.Errorf("Next was true without a record")
		}
		recs = append(recs, it.Record())
		if len(recs) > 1000 {
			return recs, fmt.Errorf("endless")
		}
	}
	err = it.Err()
	if it.Next() || it.Record() != nil || (it.Err() == nil) != (err == nil) {
		return recs, fmt.Errorf("after the end with error %v: Next, record %v, error %v", err, it.Record(), it.Err())
	}
	return recs, err
}

var nums = []uint64{0, 1, 1<<53 + 1, math.MaxInt64, 1 << 63, math.MaxUint64}

func strs() []string {
	return []string{"", "thing", "é\"\\\u2028<&>\n\x00日本😀"}
}

func strPtr(s string) *string { return &s }

func boundData() []rangedb.Event {
	return []rangedb.Event{
		&wideEv{J: "0"},
		&wideEv{ID: "a", S: "é\"\\\u2028<&>\n\x00日本😀", I: math.MinInt64, U: math.MaxUint64, F: math.MaxFloat64, B: true,
			Raw: []byte{0, 255, 10, 34}, List: []string{"", "ü"}, M: map[string]int64{"": 1, "ключ": math.MaxInt64}, P: strPtr(""),
			T: time.Date(2026, 11, 18, 23, 59, 59, 999999999, time.UTC), N: struct{ A, B int }{-1, 1 << 40}, G: "text", I8: -128, J: "-9007199254740993"},
		&wideEv{ID: strings.Repeat("b", 300), S: strings.Repeat("\u00e9", 70000), I: math.MaxInt64, U: 1<<53 + 1, F: -5e-324,
			Raw: bytes.Repeat([]byte{7}, 5000), List: []string{}, M: map[string]int64{}, P: strPtr("p"), T: time.Unix(0, 0).UTC(),
			G: map[string]interface{}{"k": []interface{}{true, nil, "x"}, "n": json.Number("18446744073709551615")}, J: "0.25"},
	}
}

func genericData() []interface{} {
	return []interface{}{
		"text", true, map[string]interface{}{}, []interface{}{},
		map[string]interface{}{"a": "b", "é": []interface{}{nil, false, "x", map[string]interface{}{"": "\x00"}}},
		map[string]interface{}{"n": json.Number("18446744073709551615"), "m": json.Number("-9223372036854775808"), "f": json.Number("0.1"), "e": json.Number("1e300")},
		uint64(math.MaxUint64), int64(math.MinInt64), 0.1,
		nil,
		rangedb.NewRawEvent("wide", "r", "Unknown", map[string]interface{}{"a": "b", "n": json.Number("9007199254740993")}),
		rangedb.NewRawEvent("wide", "r", "Unknown", []interface{}{nil, "x"}),
	}
}

func metas() []interface{} {
	return []interface{}{
		nil, map[string]interface{}{}, "m", map[string]interface{}{"user": "é", "n": uint64(math.MaxUint64), "in": map[string]interface{}{"k": []interface{}{nil, "v"}}},
		struct {
			UserID string `json:"uid"`
			N      int64
		}{"ü", math.MinInt64},
		map[string]string{"a": "b"},
		map[string]interface{}{"num": json.Number("9007199254740993")},
	}
}

// fieldsHarness round-trips the product of the field alphabets.
// reuseHarness: one serializer or stream for many records.
func reuseHarness() *explore.Harness {
	formats := []string{"json serializer", "msgpack serializer", "json stream", "ndjson stream", "msgpack stream"}
	return &explore.Harness{Name: "reuse", ExecsPerGC: 50,
		Doc: "every sequence of 3 (thorough: 5) writes and reads of 4 different records (short, long, unbound, one that cannot be written) through one serializer or stream: what was written earlier stays as it was and reads back, in any order, also after later writes, reads and failures",
		Cfg: ctl.Config{MaxSteps: 50000000},
		Body: func(x *ctl.X) {
			f := x.ChooseF(len(formats), 0, func(i int) string { return formats[i] })
			long := &Ev{Typ: "ta", ID: "2", P: strings.Repeat("long ", 400)}
			kinds := []*rangedb.Record{
				{StreamName: "ta!1", AggregateType: "ta", AggregateID: "1", GlobalSequenceNumber: 1, StreamSequenceNumber: 1, InsertTimestamp: 7, EventID: "u1", EventType: "Ev", Data: &Ev{Typ: "ta", ID: "1", P: "p"}, Metadata: "m"},
				{StreamName: "ta!2", AggregateType: "ta", AggregateID: "2", GlobalSequenceNumber: 2, StreamSequenceNumber: 1, InsertTimestamp: 8, EventID: "u2", EventType: "Ev", Data: long},
				{StreamName: "tb!3", AggregateType: "tb", AggregateID: "3", GlobalSequenceNumber: 3, StreamSequenceNumber: 4, InsertTimestamp: 9, EventID: "u3", EventType: "Other", Data: map[string]interface{}{"k": "v"}, Metadata: []interface{}{"x"}},
				{StreamName: "tb!4", AggregateType: "tb", AggregateID: "4", GlobalSequenceNumber: 4, StreamSequenceNumber: 5, EventType: "Ev", Data: make(chan int)},
			}
			var write func(r *rangedb.Record) ([]byte, error)
			var read func(b []byte) (*rangedb.Record, error)
			if f < 2 {
				var ser rangedb.RecordSerializer = jsonrecordserializer.New()
				if f == 1 {
					ser = msgpackrecordserializer.New()
				}
				ser.Bind(&Ev{})
				write, read = ser.Serialize, ser.Deserialize
			} else {
				st := ioFormats[f-2].make()
				st.Bind(&Ev{})
				write = func(r *rangedb.Record) ([]byte, error) {
					var buf bytes.Buffer
					if errs := writeStream(st, &buf, chanIter([]*rangedb.Record{r}, nil)); len(errs) > 0 {
						return nil, errs[0]
					}
					return buf.Bytes(), nil
				}
				read = func(b []byte) (*rangedb.Record, error) {
					recs, err := readStream(st, bytes.NewReader(b))
					if err != nil || len(recs) != 1 {
						return nil, fmt.Errorf("%d records, %v", len(recs), err)
					}
					return recs[0], nil
				}
			}
			type item struct {
				rec       *rangedb.Record
				b         []byte
				was       string
				got       *rangedb.Record
				gotWas    string
				recBefore string
			}
			var items []*item
			see := func(r *rangedb.Record) string {
				return fmt.Sprintf("%q %q %q %d %d %d %q %q %s %s", r.StreamName, r.AggregateType, r.AggregateID, r.GlobalSequenceNumber, r.StreamSequenceNumber, r.InsertTimestamp, r.EventID, r.EventType, js(r.Data), js(r.Metadata))
			}
			look := func(it *item) {
				r, err := read(it.b)
				if err != nil {
					x.FailSig("unreadable", "%s: %s is no longer readable: %v", formats[f], it.recBefore, err)
					return
				}
				if s := see(r); s != it.recBefore {
					x.FailSig("altered", "%s: %.300s reads as %.300s", formats[f], it.recBefore, s)
				}
				if it.got == nil {
					it.got, it.gotWas = r, see(r)
				}
			}
			for i := 0; i < explore.Tier(3, 5); i++ {
				a := x.ChooseF(len(kinds)+len(items), 0, func(i int) string {
					if i < len(kinds) {
						return fmt.Sprintf("write %d", i)
					}
					return fmt.Sprintf("read what was written as number %d", i-len(kinds))
				})
				if a >= len(kinds) {
					look(items[a-len(kinds)])
				} else {
					r := *kinds[a]
					b, err := write(&r)
					if (err != nil) != (a == 3) {
						x.FailSig("write", "%s: writing record %d: %v", formats[f], a, err)
						return
					}
					if err == nil {
						items = append(items, &item{rec: &r, b: b, was: string(b), recBefore: see(&r)})
					}
				}
				for _, it := range items {
					if string(it.b) != it.was {
						x.FailSig("overwritten", "%s: the bytes written for %.200s have changed", formats[f], it.recBefore)
						return
					}
					if it.got != nil && see(it.got) != it.gotWas {
						x.FailSig("overwritten", "%s: the record read for %.200s has changed to %.200s", formats[f], it.gotWas, see(it.got))
						return
					}
				}
			}
			for i := len(items) - 1; i >= 0; i-- {
				look(items[i])
			}
			x.Observe("%s %d", formats[f], len(items))
		}}
}

func fieldsHarness() *explore.Harness {
	formats := []string{"json serializer", "msgpack serializer", "json stream", "ndjson stream", "msgpack stream"}
	return &explore.Harness{Name: "fields", ExecsPerGC: 8,
		Doc: "every combination of values of the string fields (3 each), numeric fields (6 each), event data (3 bound, 12 generic or raw) and metadata (7), bound and unbound, through both serializers and the three streams, read back and compared field by field; the record given is not modified",
		Cfg: ctl.Config{MaxSteps: 50000000},
		Body: func(x *ctl.X) {
			f := x.ChooseF(len(formats), 0, func(i int) string { return formats[i] })
			mode := x.ChooseF(3, 0, func(i int) string {
				return []string{"bound event read as bound", "bound event read as generic", "generic data"}[i]
			})
			meta := x.ChooseF(len(metas()), 0, func(i int) string { return fmt.Sprintf("metadata %s", js(metas()[i])) })
			var datas []interface{}
			if mode == 2 {
				datas = genericData()
			} else {
				for _, e := range boundData() {
					datas = append(datas, e)
				}
			}
			di := x.ChooseF(len(datas), 0, func(i int) string { return fmt.Sprintf("data %.80s", js(datas[i])) })
			data := datas[di]
			s := strs()
			cases, refused, numberSeen := 0, false, false
			x.Soft("json-number")
			step := func(want *rangedb.Record) bool {
				cases++
				before := *want
				bdata, bmeta := canonical(want.Data), canonical(want.Metadata)
				var got *rangedb.Record
				var err error
				switch f {
				case 0, 1:
					var ser rangedb.RecordSerializer = jsonrecordserializer.New()
					if f == 1 {
						ser = msgpackrecordserializer.New()
					}
					if mode == 0 {
						ser.Bind(&Ev{}, &wideEv{})
					}
					var b []byte
					b, err = ser.Serialize(want)
					refused = err != nil
					if err == nil {
						got, err = ser.Deserialize(b)
					}
				default:
					st := ioFormats[f-2].make()
					if mode == 0 {
						st.Bind(&Ev{}, &wideEv{})
					}
					var buf bytes.Buffer
					errs := writeStream(st, &buf, chanIter([]*rangedb.Record{want}, nil))
					var recs []*rangedb.Record
					if len(errs) > 0 {
						err = errs[0]
					} else if recs, err = readStream(st, &buf); len(recs) == 1 {
						got = recs[0]
					} else if err == nil {
						err = fmt.Errorf("%d records", len(recs))
					}
				}
				if err != nil && want.Data == nil && (f == 0 || f == 2 || f == 3) {
					// Without event data it is no record in JSON: the serializer must say so before it is stored.
					if f == 0 && !refused {
						x.FailSig("fails", "%s: %.300s is serialized, but not read back: %v", formats[f], js(want), err)
						return false
					}
					return true
				}
				if err != nil {
					x.FailSig("fails", "%s: round trip of %.300s fails: %v", formats[f], js(want), err)
					return false
				}
				d := recDiff(want, got, mode == 0)
				if d != "" && (f == 1 || f == 4) && numbersAsStrings(want, got, mode == 0) {
					if !numberSeen {
						x.FailSig("json-number", "%s: %s", formats[f], d)
					}
					numberSeen = true
					d = ""
				}
				if d != "" {
					x.FailSig("altered", "%s: %s", formats[f], d)
					return false
				}
				if before.StreamName != want.StreamName || bdata != canonical(want.Data) || bmeta != canonical(want.Metadata) || reflect.TypeOf(before.Data) != reflect.TypeOf(want.Data) {
					x.FailSig("modified", "%s: writing changed the record", formats[f])
					return false
				}
				return true
			}
			evType := "WideEv"
			if mode == 2 {
				evType = "Unknown"
			}
			big := mode != 2 && di == 2
			for a := range s {
				for b := range s {
					for c := range s {
						for d := range s {
							if big && (a+b+c+d)%4 != 0 {
								continue
							}
							if !step(&rangedb.Record{StreamName: s[a], AggregateType: s[b], AggregateID: s[c], EventID: s[d], EventType: evType, Data: data, Metadata: metas()[meta],
								GlobalSequenceNumber: nums[(a+b)%len(nums)], StreamSequenceNumber: 2, InsertTimestamp: 3}) {
								return
							}
						}
					}
				}
			}
			for a := range nums {
				for b := range nums {
					for c := range nums {
						if big && (a+b+c)%5 != 0 {
							continue
						}
						if !step(&rangedb.Record{StreamName: "t!a", AggregateType: "t", AggregateID: "a", EventID: "u", EventType: evType, Data: data, Metadata: metas()[meta],
							GlobalSequenceNumber: nums[a], StreamSequenceNumber: nums[b], InsertTimestamp: nums[c]}) {
							return
						}
					}
				}
			}
			for i, et := range s {
				if mode == 0 && i >= 0 {
					break
				}
				if !step(&rangedb.Record{StreamName: "t!a", AggregateType: "t", AggregateID: "a", EventID: "u", EventType: et, Data: data, Metadata: metas()[meta]}) {
					return
				}
			}
			x.Count(cases)
			x.Observe("%d %d %d %d", f, mode, meta, di)
		}}
}

func streamRecs() []*rangedb.Record {
	return []*rangedb.Record{
		{StreamName: "t!a", AggregateType: "t", AggregateID: "a", GlobalSequenceNumber: 1, StreamSequenceNumber: 1, InsertTimestamp: 7, EventID: "u1", EventType: "Ev", Data: &Ev{Typ: "t", ID: "a", P: "1"}},
		{StreamName: "é]}", AggregateType: "[{", AggregateID: "\",\n", GlobalSequenceNumber: math.MaxUint64, StreamSequenceNumber: 1 << 63, InsertTimestamp: math.MaxUint64, EventID: "\\\"", EventType: "Ev",
			Data: &Ev{Typ: "[{", ID: "\",\n", P: "]}\n{\"x\":1}"}, Metadata: map[string]interface{}{"k": []interface{}{"]", nil, 5}}},
		{StreamName: "t!b", AggregateType: "t", AggregateID: "b", GlobalSequenceNumber: 3, EventType: "Unknown", Data: map[string]interface{}{"deep": []interface{}{"x", map[string]interface{}{}}}, Metadata: "m"},
	}
}

// msgpackWalk reports the records that are complete and well-formed at the
// start of b and whether all of b is well-formed (an independent reading of the
// MessagePack specification).
func msgpackWalk(b []byte) (values int, ok bool) {
	var skip func(i, depth int) int
	need := func(i, n int) int {
		if n < 0 || n > len(b)-i {
			return -1
		}
		return i + n
	}
	be := func(i, n int) int {
		v := 0
		for _, c := range b[i : i+n] {
			v = v<<8 | int(c)
		}
		return v
	}
	many := func(i, n, depth int) int {
		for ; n > 0 && i >= 0; n-- {
			i = skip(i, depth+1)
		}
		return i
	}
	skip = func(i, depth int) int {
		if i >= len(b) || depth > 100 {
			return -1
		}
		c := b[i]
		i++
		lenOf := func(n int) (int, int) {
			j := need(i, n)
			if j < 0 {
				return -1, 0
			}
			return j, be(i, n)
		}
		switch {
		case c <= 0x7f || c >= 0xe0 || c == 0xc0 || c == 0xc2 || c == 0xc3:
			return i
		case c >= 0x80 && c <= 0x8f:
			return many(i, 2*int(c&15), depth)
		case c >= 0x90 && c <= 0x9f:
			return many(i, int(c&15), depth)
		case c >= 0xa0 && c <= 0xbf:
			return need(i, int(c&31))
		case c == 0xc1:
			return -1
		case c >= 0xc4 && c <= 0xc6 || c >= 0xd9 && c <= 0xdb:
			w := map[byte]int{0xc4: 1, 0xc5: 2, 0xc6: 4, 0xd9: 1, 0xda: 2, 0xdb: 4}[c]
			j, n := lenOf(w)
			if j < 0 {
				return -1
			}
			return need(j, n)
		case c >= 0xc7 && c <= 0xc9:
			j, n := lenOf(1 << (c - 0xc7))
			if j < 0 {
				return -1
			}
			return need(j, n+1)
		case c == 0xca || c == 0xcb:
			return need(i, 4<<(c-0xca))
		case c >= 0xcc && c <= 0xcf:
			return need(i, 1<<(c-0xcc))
		case c >= 0xd0 && c <= 0xd3:
			return need(i, 1<<(c-0xd0))
		case c >= 0xd4 && c <= 0xd8:
			return need(i, 1+1<<(c-0xd4))
		case c >= 0xdc && c <= 0xdf:
			j, n := lenOf(2 << ((c - 0xdc) % 2))
			if j < 0 {
				return -1
			}
			if c >= 0xde {
				n *= 2
			}
			return many(j, n, depth)
		}
		return -1
	}
	for i := 0; i < len(b); {
		j := skip(i, 0)
		if j < 0 {
			return values, false
		}
		i = j
		values++
	}
	return values, true
}

// wellFormed decides, independently of the code under test, whether b is a
// complete well-formed stream of the format.
func wellFormed(format string, b []byte) bool {
	switch format {
	case "json":
		if len(b) == 0 {
			return true
		}
		return json.Valid(b) && bytes.HasPrefix(bytes.TrimLeft(b, " \t\r\n"), []byte("["))
	case "ndjson":
		d := json.NewDecoder(bytes.NewReader(b))
		for {
			var r json.RawMessage
			err := d.Decode(&r)
			if err == io.EOF {
				return true
			}
			if err != nil || (len(r) > 0 && r[0] != '{' && r[0] != 'n') {
				return false
			}
		}
	default:
		n, ok := msgpackWalk(b)
		return ok && n%2 == 0
	}
}

// streamHarness reads every damaged form of short streams.
func streamHarness() *explore.Harness {
	kinds := []string{"whole", "cut", "read error", "read error with text EOF", "replaced byte", "inserted byte", "removed byte"}
	repl := []byte{0, ' ', '"', ',', '[', ']', '{', '}', ':', '0', 0x80, 0x90, 0xa1, 0xc0, 0xc1, 0xd9, 0xdf, 0xff}
	return &explore.Harness{Name: "streams", ExecsPerGC: 16,
		Doc: "every stream of up to 2 (thorough 3) records of 3 kinds, bound and unbound, in the three formats: read whole in 4 read styles and every two-part split; cut at every byte; reader failing at every byte; every byte replaced by each of 18 values (thorough: by all 255), removed, or preceded by one. The intact leading records come out unchanged and then a clean end exactly for a well-formed whole stream (judged by independent walkers), an error otherwise",
		Cfg: ctl.Config{MaxSteps: 50000000},
		Body: func(x *ctl.X) {
			f := ioFormats[x.ChooseF(len(ioFormats), 0, func(i int) string { return ioFormats[i].name })]
			bound := x.ChooseF(2, 0, func(i int) string { return []string{"bound", "unbound"}[i] }) == 0
			var recs []*rangedb.Record
			max := explore.Tier(2, 3)
			for len(recs) < max {
				k := x.ChooseF(4, 0, func(i int) string { return []string{"no more records", "record 0", "record 1", "record 2"}[i] })
				if k == 0 {
					break
				}
				recs = append(recs, streamRecs()[k-1])
			}
			kind := x.ChooseF(len(kinds), 0, func(i int) string { return kinds[i] })
			mk := func() rangedb.RecordIoStream {
				s := f.make()
				if bound {
					s.Bind(&Ev{})
				}
				return s
			}
			// ends[i] is where record i's bytes end: the longest that writing the first i+1 records shares.
			var buf bytes.Buffer
			if errs := writeStream(mk(), &buf, chanIter(recs, nil)); len(errs) > 0 {
				x.FailSig("write", "%s: writing fails: %v", f.name, errs)
				return
			}
			whole := append([]byte(nil), buf.Bytes()...)
			if !wellFormed(f.name, whole) {
				x.FailSig("write", "%s: the stream written is not well-formed: %q", f.name, whole)
				return
			}
			ends := make([]int, len(recs))
			for i := range recs {
				var b bytes.Buffer
				writeStream(mk(), &b, chanIter(recs[:i+1], nil))
				n := b.Len()
				if f.name == "json" {
					n-- // without "]"
				}
				ends[i] = n
			}
			cases := 0
			// check reads b and compares. intact: records wholly within the undamaged
			// part; mustFail and mustEnd fix the outcome.
			check := func(what func() string, b []byte, style, split int, rerr error, intact int, mustFail, mustEnd bool, only int) bool {
				cases++
				var got []*rangedb.Record
				var err error
				if !noPanic(x, func() string { return f.name + ": reading " + what() }, func() {
					got, err = readStream(mk(), &chunkReader{data: b, style: style, split: split, err: rerr})
				}) {
					return false
				}
				if len(got) < intact {
					x.FailSig("lost", "%s: reading %s yields %d of %d intact leading records, error %v", f.name, what(), len(got), intact, err)
					return false
				}
				for i := 0; i < intact; i++ {
					if d := recDiff(recs[i], got[i], bound && recs[i].EventType == "Ev"); d != "" {
						x.FailSig("altered", "%s: reading %s: record %d: %s", f.name, what(), i, d)
						return false
					}
				}
				if only >= 0 && len(got) > only {
					x.FailSig("extra", "%s: reading %s yields %d records, %d are there", f.name, what(), len(got), only)
					return false
				}
				if mustFail && err == nil {
					x.FailSig("silent", "%s: reading %s yields %d records and no error", f.name, what(), len(got))
					return false
				}
				if mustEnd && err != nil {
					x.FailSig("fails", "%s: reading %s fails: %v", f.name, what(), err)
					return false
				}
				return true
			}
			intactIn := func(n int) int {
				k := 0
				for k < len(ends) && ends[k] <= n {
					k++
				}
				return k
			}
			switch kind {
			case 0:
				for style := range readStyles {
					if !check(func() string { return "the stream " + readStyles[style] }, whole, style, -1, io.EOF, len(recs), false, true, len(recs)) {
						return
					}
				}
				for i := 1; i < len(whole); i++ {
					if !check(func() string { return fmt.Sprintf("the stream in parts of %d and %d bytes", i, len(whole)-i) }, whole, 0, i, io.EOF, len(recs), false, true, len(recs)) {
						return
					}
				}
			case 1, 2, 3:
				rerr := []error{io.EOF, errRead, errEOFText}[kind-1]
				for i := 0; i <= len(whole); i++ {
					if kind == 1 && i == len(whole) {
						break
					}
					for style := range readStyles {
						in := intactIn(i)
						clean := kind == 1 && wellFormed(f.name, whole[:i])
						if !check(func() string {
							return fmt.Sprintf("the first %d of %d bytes %s, then %v (%q)", i, len(whole), readStyles[style], rerr, whole[:i])
						}, whole[:i], style, -1, rerr, in, !clean, clean, in) {
							return
						}
					}
				}
			case 4, 5, 6:
				for i := range whole {
					try := func(m []byte, c int) bool {
						return check(func() string { return fmt.Sprintf("with %s %d (%#x): %q", kinds[kind], i, c, m) }, m, 0, -1, io.EOF, intactIn(i), !wellFormed(f.name, m), false, -1)
					}
					if kind == 6 {
						if !try(append(append([]byte(nil), whole[:i]...), whole[i+1:]...), 0) {
							return
						}
						continue
					}
					for c := 0; c < 256; c++ {
						if !explore.Thorough() && !bytes.Contains(repl, []byte{byte(c)}) {
							continue
						}
						m := append([]byte(nil), whole...)
						if kind == 4 {
							if m[i] == byte(c) {
								continue
							}
							m[i] = byte(c)
						} else {
							m = append(append(append([]byte(nil), whole[:i]...), byte(c)), whole[i:]...)
						}
						if !try(m, c) {
							return
						}
					}
					if i%64 == 63 {
						x.GC()
					}
				}
			}
			x.Count(cases)
			x.Observe("%s %v %d %s", f.name, bound, len(recs), kinds[kind])
		}}
}

// writeHarness makes writers, iterators and encodings fail.
func writeHarness() *explore.Harness {
	return &explore.Harness{Name: "writes", ExecsPerGC: 16,
		Doc: "streams of up to 2 (thorough 3) records written to a writer that fails at every byte, from an iterator that fails at every position (also one that ends with an error at once), and with an event that cannot be encoded at every position: the error is reported, nothing written claims to be complete (JSON), and what was written reads back as a prefix",
		Cfg: ctl.Config{MaxSteps: 50000000},
		Body: func(x *ctl.X) {
			f := ioFormats[x.ChooseF(len(ioFormats), 0, func(i int) string { return ioFormats[i].name })]
			var recs []*rangedb.Record
			max := explore.Tier(2, 3)
			for len(recs) < max {
				k := x.ChooseF(4, 0, func(i int) string { return []string{"no more records", "record 0", "record 1", "record 2"}[i] })
				if k == 0 {
					break
				}
				recs = append(recs, streamRecs()[k-1])
			}
			kind := x.ChooseF(4, 0, func(i int) string {
				return []string{"failing writer", "failing iterator", "failing custom iterator", "unencodable event"}[i]
			})
			var buf bytes.Buffer
			if errs := writeStream(f.make(), &buf, chanIter(recs, nil)); len(errs) > 0 {
				x.FailSig("write", "%s: writing fails: %v", f.name, errs)
				return
			}
			prefix := func(what string, b []byte, max int) {
				if f.name == "json" && json.Valid(b) {
					x.FailSig("complete", "%s: after %s what was written is a complete document: %q", f.name, what, b)
					return
				}
				st := f.make()
				st.Bind(&Ev{})
				got, _ := readStream(st, bytes.NewReader(b))
				if len(got) > max {
					x.FailSig("extra", "%s: after %s, %d records read back of %d", f.name, what, len(got), max)
				}
				for i := range got {
					if i < len(recs) && recDiff(recs[i], got[i], false) != "" {
						x.FailSig("altered", "%s: after %s: record %d: %s", f.name, what, i, recDiff(recs[i], got[i], false))
					}
				}
			}
			cases := 0
			switch kind {
			case 0:
				whole := buf.Bytes()
				for n := 0; n < len(whole); n++ {
					cases++
					w := &failWriter{n: n}
					errs := writeStream(f.make(), w, chanIter(recs, nil))
					what := fmt.Sprintf("a write failure after %d of %d bytes", n, len(whole))
					if len(errs) == 0 {
						x.FailSig("silent", "%s: %s is not reported", f.name, what)
						return
					}
					if !bytes.HasPrefix(whole, w.buf.Bytes()) {
						x.FailSig("altered", "%s: %s: wrote %q", f.name, what, w.buf.Bytes())
						return
					}
				}
			case 1, 2:
				for n := 0; n <= len(recs); n++ {
					cases++
					var it rangedb.RecordIterator = chanIter(recs[:n], errRead)
					if kind == 2 {
						it = &scriptIter{recs: recs[:n], err: errRead}
					}
					var b bytes.Buffer
					errs := writeStream(f.make(), &b, it)
					what := fmt.Sprintf("a read failure after %d records", n)
					if len(errs) == 0 {
						x.FailSig("silent", "%s: %s is not reported (wrote %q)", f.name, what, b.Bytes())
						return
					}
					if !strings.Contains(errs[0].Error(), errRead.Error()) {
						x.FailSig("cause", "%s: %s is reported as %v", f.name, what, errs[0])
					}
					prefix(what, b.Bytes(), n)
				}
			case 3:
				for n := 0; n <= len(recs); n++ {
					for _, bad := range []interface{}{&badEv{}, func() {}, map[string]interface{}{"c": make(chan int)}} {
						for meta := 0; meta < 2; meta++ {
							cases++
							r := *streamRecs()[0]
							if meta == 0 {
								r.Data = bad
							} else {
								r.Metadata = bad
							}
							rs := append(append(append([]*rangedb.Record(nil), recs[:n]...), &r), recs[n:]...)
							var b bytes.Buffer
							errs := writeStream(f.make(), &b, chanIter(rs, nil))
							what := fmt.Sprintf("an unencodable record at position %d", n)
							if len(errs) == 0 {
								x.FailSig("silent", "%s: %s is not reported", f.name, what)
								return
							}
							prefix(what, b.Bytes(), n)
						}
					}
				}
			}
			x.Count(cases)
			x.Observe("%s %d %d", f.name, len(recs), kind)
		}}
}

func init() {
	explore.Register(&explore.Property{ID: "C16", Level: "model_checking",
		Rule:        "one execution per format, content and kind of damage; each runs every position within; distinct by that choice, all non-trivial except the empty stream",
		Assumptions: []string{"strings are valid UTF-8 and numbers are finite (JSON cannot hold others)", "times are compared as instants; generic values by their JSON meaning", "values, stream lengths and damage beyond the stated bounds behave like those within"},
		Harnesses:   []*explore.Harness{fieldsHarness(), reuseHarness(), streamHarness(), writeHarness()}})
}
