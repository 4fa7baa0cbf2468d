// Package h contains the harnesses.
package h

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"github.com/inklabs/rangedb/provider/encryptedstore"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/provider/leveldbstore"
	"github.com/inklabs/rangedb/provider/msgpackrecordserializer"

	"verifmc/ctl"
)

var bgLevelDB = []string{"github.com/syndtr/goleveldb/"}

// Ev is the harness event. Its methods can call back (to cancel a context or
// to offer a scheduling point in the middle of a save).
type Ev struct {
	Typ string `json:"typ"`
	ID  string `json:"id"`
	P   string `json:"p"`

	onType func()
}

func (e *Ev) AggregateID() string { return e.ID }
func (e *Ev) AggregateType() string {
	if e.onType != nil {
		e.onType()
	}
	return e.Typ
}
func (e *Ev) EventType() string { return "Ev" }

// hookSerializer offers a scheduling point inside every (de)serialization, which
// happens inside the stores' critical sections, and fails on demand.
type hookSerializer struct {
	rangedb.RecordSerializer
	x       *ctl.X
	points  bool
	failDes func(data []byte) error
}

func newHookSerializer(x *ctl.X, points bool) *hookSerializer {
	return &hookSerializer{RecordSerializer: jsonrecordserializer.New(), x: x, points: points}
}

var errSerialize = errors.New("cannot serialize")

func (s *hookSerializer) Serialize(r *rangedb.Record) ([]byte, error) {
	if s.points {
		s.x.Point()
	}
	switch e := r.Data.(type) {
	case *Ev:
		if strings.HasPrefix(e.P, "FAIL") {
			return nil, errSerialize
		}
	case rangedb.Event: // a raw event, from a server
		if strings.Contains(js(e), `"p":"FAIL`) {
			return nil, errSerialize
		}
	}
	return s.RecordSerializer.Serialize(r)
}

func (s *hookSerializer) Deserialize(b []byte) (*rangedb.Record, error) {
	if s.points {
		s.x.Point()
	}
	if s.failDes != nil {
		if err := s.failDes(b); err != nil {
			return nil, err
		}
	}
	return s.RecordSerializer.Deserialize(b)
}

type stepClock struct {
	x      *ctl.X
	points bool
	n      int64
}

func (c *stepClock) Now() time.Time {
	if c.points {
		c.x.Point()
	}
	c.n++
	return time.Unix(1600000000+c.n, 0)
}

type seqUUID struct {
	x      *ctl.X
	points bool
	n      int
}

func (u *seqUUID) New() string {
	if u.points {
		u.x.Point()
	}
	u.n++
	return fmt.Sprintf("u%d", u.n)
}

// Env is one store under test with its parts.
type Env struct {
	X    *ctl.X
	Kind string
	St   rangedb.Store
	Ser  *hookSerializer
	Disk *Disk
	// Direct is the store behind the server of a remote kind.
	Direct rangedb.Store
	clk    *stepClock
	uid    *seqUUID
	stop   func() error
	Pg     *pgServer
	keep   bool
}

// openStore opens a store ("mem" or "ldb"). With points, the store's injected
// collaborators offer scheduling points.
func openStore(x *ctl.X, kind string, points bool) *Env {
	e := &Env{X: x, Kind: kind, Ser: newHookSerializer(x, points), clk: &stepClock{x: x, points: points}, uid: &seqUUID{x: x, points: points}}
	switch kind {
	case "mem":
		e.St = inmemorystore.New(inmemorystore.WithClock(e.clk), inmemorystore.WithUUIDGenerator(e.uid), inmemorystore.WithSerializer(e.Ser))
	case "ldb":
		e.Disk = newDisk()
		if err := e.openLDB(); err != nil {
			x.Fail("open leveldb: %v", err)
		}
	case "ldb-mp":
		e.Ser.RecordSerializer = msgpackrecordserializer.New()
		e.Disk = newDisk()
		if err := e.openLDB(); err != nil {
			x.Fail("open leveldb: %v", err)
		}
	case "pg", "pg-notify":
		e.Pg = newPgServer(x)
		if err := e.openPg(); err != nil {
			x.Fail("open postgres store: %v", err)
			e.checkPg()
		}
		return e
	case "enc-mem", "enc-ldb":
		e.Close()
		e = openStore(x, kind[len("enc-"):], points)
		if !x.Failed() {
			e.Kind = kind
			e.encrypt()
		}
		return e
	case "http-mem", "http-ldb":
		e.Close()
		e = openStore(x, kind[len("http-"):], points)
		if !x.Failed() {
			e.Kind = kind
			e.Direct = e.St
			if s := newHTTPStore(x, e.St); s != nil {
				e.St = s
			}
		}
		return e
	case "remote-mem", "remote-ldb", "remote-ldb-mp":
		e.Close()
		e = openStore(x, kind[len("remote-"):], points)
		if !x.Failed() {
			e.Kind = kind
			e.serveRemote()
		}
		return e
	default:
		panic(kind)
	}
	e.St.Bind(&Ev{})
	return e
}

// encrypt puts an encrypting store in front of the store, if it is of such a kind.
func (e *Env) encrypt() {
	if strings.HasPrefix(e.Kind, "enc-") {
		e.Direct = e.St
		e.St = encryptedstore.New(e.Direct, evEncryptor{e})
	}
}

// evEncryptor encrypts every harness event; nothing may be encrypted or decrypted twice.
type evEncryptor struct{ e *Env }

const evCipher = "~encrypted"

func (c evEncryptor) Encrypt(event rangedb.Event) error {
	if e, ok := event.(*Ev); ok {
		if strings.Contains(e.P, evCipher) {
			c.e.X.FailSig("twice", "%s is encrypted again", js(e))
		}
		e.P += evCipher
	}
	return nil
}

func (c evEncryptor) Decrypt(event rangedb.Event) error {
	if e, ok := event.(*Ev); ok {
		if !strings.HasSuffix(e.P, evCipher) {
			c.e.X.FailSig("twice", "%s is decrypted, but was not encrypted", js(e))
		}
		e.P = strings.TrimSuffix(e.P, evCipher)
	}
	return nil
}

func (e *Env) openLDB() error {
	disks["/d"] = e.Disk
	e.Disk.log(dop{kind: 'O'})
	s, err := leveldbstore.New("/d", leveldbstore.WithClock(e.clk), leveldbstore.WithUUIDGenerator(e.uid), leveldbstore.WithSerializer(e.Ser))
	if err != nil {
		return err
	}
	e.Disk.log(dop{kind: 'o'})
	s.Bind(&Ev{})
	e.St = s
	e.stop = s.Stop
	e.encrypt()
	return nil
}

// Close releases the store's background goroutines (execution hygiene).
func (e *Env) Close() {
	e.checkPg()
	if e.Pg != nil && !e.X.Failed() {
		e.checkOpen()
	}
	if e.stop != nil {
		_ = e.stop()
		e.stop = nil
	}
}

// Rec is the comparable content of one record.
type Rec struct {
	Stream, Typ, ID, EvType, EvID string
	GSN, SSN, TS                  uint64
	Data, Meta                    string
}

func (r Rec) String() string {
	return fmt.Sprintf("{%q %q/%q g%d s%d t%d %s %s %s m=%s}", r.Stream, r.Typ, r.ID, r.GSN, r.SSN, r.TS, r.EvID, r.EvType, r.Data, r.Meta)
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "!" + err.Error()
	}
	return string(b)
}

func toRec(r *rangedb.Record) Rec {
	return Rec{r.StreamName, r.AggregateType, r.AggregateID, r.EventType, r.EventID, r.GlobalSequenceNumber,
		r.StreamSequenceNumber, r.InsertTimestamp, fmt.Sprintf("%T", r.Data) + js(r.Data), js(r.Metadata)}
}

func payload(r Rec) string {
	i := strings.Index(r.Data, `"p":"`)
	if i < 0 {
		return r.Data
	}
	s := r.Data[i+5:]
	return s[:strings.IndexByte(s, '"')]
}

// drain reads an iterator to its end.
func drain(it rangedb.RecordIterator) (recs []Rec, err error) {
	for it.Next() {
		r := it.Record()
		if r == nil {
			return recs, fmt.Errorf("Next was true but there is no record (Err %v)", it.Err())
		}
		recs = append(recs, toRec(r))
		if len(recs) > 10000 {
			return recs, fmt.Errorf("endless iterator")
		}
	}
	return recs, it.Err()
}

func recsEqual(a, b []Rec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func showRecs(r []Rec) string {
	var s []string
	for _, x := range r {
		s = append(s, x.String())
	}
	return "[" + strings.Join(s, " ") + "]"
}

// errKind classifies an error for comparison.
func errKind(err error) string {
	if err == nil {
		return "ok"
	}
	var u *rangedberror.UnexpectedSequenceNumber
	if errors.As(err, &u) {
		return fmt.Sprintf("unexpected(%d,%d)", u.Expected, u.ActualSequenceNumber)
	}
	if errors.Is(err, rangedb.ErrStreamNotFound) {
		return "notfound"
	}
	if errors.Is(err, context.Canceled) {
		return "canceled"
	}
	return "error"
}

// Model is the reference: an append-only list with deletions.
type Model struct {
	Recs   []Rec // live records in global order
	MaxGSN uint64
	EvIDs  map[string]bool
	Log    []Rec // every record ever saved
}

func newModel() *Model { return &Model{EvIDs: map[string]bool{}} }

func (m *Model) stream(name string) []Rec {
	var r []Rec
	for _, x := range m.Recs {
		if x.Stream == name {
			r = append(r, x)
		}
	}
	return r
}

func (m *Model) streams() []string {
	seen := map[string]bool{}
	var r []string
	for _, x := range m.Recs {
		if !seen[x.Stream] {
			seen[x.Stream] = true
			r = append(r, x.Stream)
		}
	}
	sort.Strings(r)
	return r
}

func (m *Model) delete(name string) {
	var r []Rec
	for _, x := range m.Recs {
		if x.Stream != name {
			r = append(r, x)
		}
	}
	m.Recs = r
}

func filter(rs []Rec, f func(Rec) bool) []Rec {
	var r []Rec
	for _, x := range rs {
		if f(x) {
			r = append(r, x)
		}
	}
	return r
}

func inSet(s string, set []string) bool {
	for _, x := range set {
		if x == s {
			return true
		}
	}
	return false
}

var bgCtx = context.Background()
