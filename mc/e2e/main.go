// Command e2e runs one sequence of operations against the real server program over loopback and
// compares everything its interfaces show with a model. It prints OK, or FAIL and what differed.
package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/gorilla/websocket"
	"golang.org/x/net/html"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/provider/msgpackrecordiostream"
)

const patience = 30 * time.Second

var (
	types   = []string{"thing", "a//b", "é?#%25 &"}
	ids     = []string{"1", "x/../y", "a b;c=d+"}
	streams []string
)

type rec struct {
	Stream string
	Num    uint64
	Type   string
	ID     string
	Event  string
	Data   string
	Meta   string
	Global uint64
}

func (r rec) String() string {
	return fmt.Sprintf("%q #%d (%d) %q %q %s %s %s", r.Stream, r.Num, r.Global, r.Type, r.ID, r.Event, r.Data, r.Meta)
}

// noGlobal hides the global numbers of records.
func noGlobal(rs []rec) []rec {
	out := []rec{}
	for _, r := range rs {
		r.Global = 0
		out = append(out, r)
	}
	return out
}

type failure struct{ text string }

func failf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

type server struct {
	cmd        *exec.Cmd
	http, grpc string
	mu         sync.Mutex
	out        bytes.Buffer
	exited     chan error
}

func (s *server) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.out.Write(p)
}

func (s *server) text() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.out.String()
}

func after(text, prefix string) string {
	i := strings.Index(text, prefix)
	if i < 0 {
		return ""
	}
	line, _, ok := strings.Cut(text[i+len(prefix):], "\n")
	if !ok {
		return ""
	}
	_, port, _ := strings.Cut(line, ":")
	return "127.0.0.1:" + port
}

type world struct {
	bin, dir string
	disk     bool
	db       string
	other    *world // the database not served
	srv      *server
	conn     *grpc.ClientConn
	cl       rangedbpb.RangeDBClient
	model    []rec
	next     map[string]uint64
	deleted  bool
	n        int
	subs     []*sub
	log      []string
	proxy    *proxy
	watcher  *server
	watched  string // aggregate types of the watching program, separated by comma
}

// proxy forwards connections to the gRPC server of the moment.
type proxy struct {
	l      net.Listener
	mu     sync.Mutex
	target string
	conns  []net.Conn
}

func newProxy() *proxy {
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	p := &proxy{l: l}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			p.mu.Lock()
			d, err := net.Dial("tcp4", p.target)
			if err != nil {
				c.Close()
			} else {
				p.conns = append(p.conns, c, d)
				go func() { io.Copy(c, d); c.Close() }()
				go func() { io.Copy(d, c); d.Close() }()
			}
			p.mu.Unlock()
		}
	}()
	return p
}

func (p *proxy) cut() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, c := range p.conns {
		c.Close()
	}
	p.conns = nil
}

// watch starts the program that prints the events it is sent.
func (w *world) watch(bin string) {
	w.watcher = &server{}
	args := []string{"-host", w.proxy.l.Addr().String()}
	if w.watched != "" {
		args = append(args, "-aggregateTypes", w.watched)
	}
	w.watcher.cmd = exec.Command(bin, args...)
	w.watcher.cmd.Env = []string{"HOME=" + w.dir}
	w.watcher.cmd.Dir = w.dir
	w.watcher.cmd.Stdout = w.watcher
	w.watcher.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := w.watcher.cmd.Start(); err != nil {
		panic(err)
	}
}

var token = regexp.MustCompile("tok[0-9]+x")

// printed waits until the watching program has printed every event, and compares.
func (w *world) printed() {
	if w.watcher == nil {
		return
	}
	var want []string
	for _, r := range w.model {
		if w.watched == "" || strings.Contains(","+w.watched+",", ","+r.Type+",") {
			want = append(want, token.FindString(r.Data))
		}
	}
	for end := time.Now().Add(patience); ; time.Sleep(time.Millisecond) {
		got := token.FindAllString(w.watcher.text(), -1)
		if len(want) > 0 && (len(got) == 0 || got[len(got)-1] != want[len(want)-1]) && time.Now().Before(end) {
			continue
		}
		if len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
			failf("the subscriber program printed %v, want %v", got, want)
		}
		return
	}
}

func (w *world) start() {
	s := &server{exited: make(chan error, 1)}
	args := []string{"-port", "0", "-gRPCPort", "0"}
	if w.disk {
		args = append(args, "-levelDBPath", filepath.Join(w.dir, w.db))
	}
	s.cmd = exec.Command(w.bin, args...)
	s.cmd.Dir = w.dir
	s.cmd.Env = []string{"TMPDIR=" + w.dir, "HOME=" + w.dir, "PATH=" + os.Getenv("PATH")}
	s.cmd.Stdout, s.cmd.Stderr = s, s
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	go func() { s.exited <- s.cmd.Wait() }()
	for end := time.Now().Add(patience); ; time.Sleep(2 * time.Millisecond) {
		t := s.text()
		s.http, s.grpc = after(t, "Listening: http://"), after(t, "gRPC listening: grpc://")
		if s.http != "" && s.grpc != "" {
			break
		}
		select {
		case err := <-s.exited:
			failf("the server ended at its start: %v\n%s", err, s.text())
		default:
		}
		if time.Now().After(end) {
			failf("the server does not start\n%s", t)
		}
	}
	w.srv = s
	if w.proxy != nil {
		w.proxy.mu.Lock()
		w.proxy.target = s.grpc
		w.proxy.mu.Unlock()
	}
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	var err error
	if w.conn, err = grpc.DialContext(ctx, s.grpc, grpc.WithInsecure(), grpc.WithBlock()); err != nil {
		failf("no connection to the gRPC server: %v", err)
	}
	w.cl = rangedbpb.NewRangeDBClient(w.conn)
	w.subs = nil
	w.subscribe("websocket, all", "/events", nil, false)
	w.subscribe("websocket, types", "/events/"+url.PathEscape(types[1]+","+types[2]), []string{types[1], types[2]}, false)
	w.subscribe("gRPC, all", "", nil, true)
	w.subscribe("gRPC, types", "", []string{types[2], types[1]}, true)
}

// end stops the server with a signal.
func (w *world) end(sig syscall.Signal) {
	w.caughtUp()
	w.printed()
	_ = w.srv.cmd.Process.Signal(sig)
	select {
	case err := <-w.srv.exited:
		if sig == syscall.SIGINT {
			if err != nil {
				failf("the server ended with %v after an interrupt\n%s", err, w.srv.text())
			}
			if !strings.Contains(w.srv.text(), "Shutting down store") {
				failf("the server ended without closing its store\n%s", w.srv.text())
			}
		}
	case <-time.After(patience / 3):
		failf("the server does not end after %v\n%s", sig, w.srv.text())
	}
	if t := w.srv.text(); strings.Contains(t, "panic") {
		failf("the server panicked\n%s", t)
	}
	_ = w.conn.Close()
	for _, s := range w.subs {
		select {
		case <-s.done:
		case <-time.After(patience):
			failf("%s: the subscription goes on after the server has ended", s.name)
		}
	}
	if !w.disk {
		w.model, w.next = nil, map[string]uint64{}
	}
}

// sub is a subscription that follows the store.
type sub struct {
	name  string
	types []string
	want  []rec
	mu    sync.Mutex
	got   []rec
	err   error
	done  chan struct{}
}

func (s *sub) add(r rec) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.got = append(s.got, r)
}

func (s *sub) wants(r rec) bool {
	if s.types == nil {
		return true
	}
	for _, t := range s.types {
		if t == r.Type {
			return true
		}
	}
	return false
}

func (w *world) subscribe(name, path string, types []string, rpc bool) {
	s := &sub{name: name, types: types, done: make(chan struct{})}
	for _, r := range w.model {
		if s.wants(r) {
			s.want = append(s.want, r)
		}
	}
	var recv func() (rec, error)
	if rpc {
		var stream interface {
			Recv() (*rangedbpb.Record, error)
		}
		var err error
		if types == nil {
			stream, err = w.cl.SubscribeToEvents(context.Background(), &rangedbpb.SubscribeToEventsRequest{})
		} else {
			stream, err = w.cl.SubscribeToEventsByAggregateType(context.Background(), &rangedbpb.SubscribeToEventsByAggregateTypeRequest{AggregateTypes: types})
		}
		if err != nil {
			failf("%s: %v", name, err)
		}
		recv = func() (rec, error) {
			m, err := stream.Recv()
			if err != nil {
				return rec{}, err
			}
			return fromPb(m), nil
		}
	} else {
		c, resp, err := websocket.DefaultDialer.Dial("ws://"+w.srv.http+"/ws"+path+"?global-sequence-number=0", nil)
		if err != nil {
			code := 0
			if resp != nil {
				code = resp.StatusCode
			}
			failf("%s: %v (status %d)", name, err, code)
		}
		recv = func() (rec, error) {
			_, b, err := c.ReadMessage()
			if err != nil {
				c.Close()
				return rec{}, err
			}
			var r jsonRec
			if err := json.Unmarshal(b, &r); err != nil {
				return rec{}, fmt.Errorf("%v in %s", err, b)
			}
			return r.rec(), nil
		}
	}
	w.subs = append(w.subs, s)
	go func() {
		defer close(s.done)
		for {
			r, err := recv()
			if err != nil {
				s.mu.Lock()
				s.err = err
				s.mu.Unlock()
				return
			}
			s.add(r)
		}
	}()
}

// caughtUp waits until every subscription has shown what was saved.
func (w *world) caughtUp() {
	for _, s := range w.subs {
		for end := time.Now().Add(patience); ; time.Sleep(time.Millisecond) {
			s.mu.Lock()
			got, err := append([]rec{}, s.got...), s.err
			s.mu.Unlock()
			if len(got) >= len(s.want) {
				if !reflect.DeepEqual(noGlobal(got), noGlobal(s.want)) {
					failf("%s: received\n%v\nwant\n%v", s.name, got, s.want)
				}
				break
			}
			if err != nil || time.Now().After(end) {
				failf("%s: received %v, then nothing (%v); want\n%v", s.name, got, err, s.want)
			}
		}
	}
}

type jsonRec struct {
	StreamName           string          `json:"streamName"`
	AggregateType        string          `json:"aggregateType"`
	AggregateID          string          `json:"aggregateID"`
	GlobalSequenceNumber uint64          `json:"globalSequenceNumber"`
	StreamSequenceNumber uint64          `json:"streamSequenceNumber"`
	EventType            string          `json:"eventType"`
	Data                 json.RawMessage `json:"data"`
	Metadata             json.RawMessage `json:"metadata"`
}

func compact(b []byte) string {
	if len(b) == 0 {
		return "null"
	}
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		return "invalid: " + string(b)
	}
	out, _ := json.Marshal(v)
	return string(out)
}

func (r jsonRec) rec() rec {
	return rec{r.StreamName, r.StreamSequenceNumber, r.AggregateType, r.AggregateID, r.EventType, compact(r.Data), compact(r.Metadata), r.GlobalSequenceNumber}
}

func fromPb(m *rangedbpb.Record) rec {
	return rec{m.StreamName, m.StreamSequenceNumber, m.AggregateType, m.AggregateID, m.EventType, compact([]byte(m.Data)), compact([]byte(m.Metadata)), m.GlobalSequenceNumber}
}

func (w *world) request(method, path string, header map[string]string, body string) (int, string, string) {
	req, err := http.NewRequest(method, "http://"+w.srv.http+path, strings.NewReader(body))
	if err != nil {
		panic(err)
	}
	for k, v := range header {
		req.Header.Set(k, v)
	}
	c := &http.Client{Timeout: patience, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	resp, err := c.Do(req)
	if err != nil {
		failf("%s %s: %v", method, path, err)
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		failf("%s %s: body: %v", method, path, err)
	}
	return resp.StatusCode, string(b), resp.Header.Get("Location")
}

func (w *world) events(s, n int, how string) (string, []*rangedbpb.Event, []rec) {
	var out []map[string]interface{}
	var pb []*rangedbpb.Event
	var recs []rec
	for i := 0; i < n; i++ {
		w.n++
		data := fmt.Sprintf(`{"token":"tok%dx"}`, w.n)
		meta := fmt.Sprintf(`{"by":"%s"}`, how)
		e := "Event" + strconv.Itoa(w.n%2)
		out = append(out, map[string]interface{}{"aggregateType": types[s], "aggregateID": ids[s], "eventType": e, "data": json.RawMessage(data), "metadata": json.RawMessage(meta)})
		pb = append(pb, &rangedbpb.Event{AggregateType: types[s], AggregateID: ids[s], EventType: e, Data: data, Metadata: meta})
		recs = append(recs, rec{streams[s], w.next[streams[s]] + 1 + uint64(i), types[s], ids[s], e, data, meta, 0})
	}
	b, _ := json.Marshal(out)
	return string(b), pb, recs
}

func (w *world) saved(recs []rec) {
	w.model = append(w.model, recs...)
	w.next[recs[0].Stream] = recs[len(recs)-1].Num
	for _, s := range w.subs {
		for _, r := range recs {
			if s.wants(r) {
				s.want = append(s.want, r)
			}
		}
	}
}

func (w *world) gone(s int) {
	var keep []rec
	for _, r := range w.model {
		if r.Stream != streams[s] {
			keep = append(keep, r)
		}
	}
	w.model = keep
	delete(w.next, streams[s])
	w.deleted = true
}

func (w *world) httpSave(s int, expect string, wantCode int) {
	body, _, recs := w.events(s, 1, "http")
	h := map[string]string{"Content-Type": "application/json"}
	if expect != "" {
		h["ExpectedStreamSequenceNumber"] = expect
	}
	code, text, _ := w.request("POST", "/api/save-events/"+url.PathEscape(streams[s]), h, body)
	if code != wantCode {
		failf("HTTP save to %q expecting %q: status %d, %s; want %d", streams[s], expect, code, text, wantCode)
	}
	if code == 201 {
		want := fmt.Sprintf(`{"status":"OK","streamSequenceNumber":%d}`, recs[0].Num)
		if compact([]byte(text)) != compact([]byte(want)) {
			failf("HTTP save to %q: %s, want %s", streams[s], text, want)
		}
		w.saved(recs)
	}
}

func (w *world) op(op string) {
	w.log = append(w.log, op)
	s := 0
	if len(op) > 2 {
		s = int(op[len(op)-1] - '0')
	}
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	last := w.next[streams[s]]
	switch op[:2] {
	case "hs":
		w.httpSave(s, "", 201)
	case "ho":
		w.httpSave(s, fmt.Sprint(last), 201)
	case "hw":
		w.httpSave(s, fmt.Sprint(last+1), 409)
	case "gs":
		_, pb, recs := w.events(s, 2, "grpc")
		r, err := w.cl.Save(ctx, &rangedbpb.SaveRequest{StreamName: streams[s], Events: pb})
		if err != nil {
			failf("gRPC save to %q: %v", streams[s], err)
		}
		if r.LastStreamSequenceNumber != recs[1].Num {
			failf("gRPC save to %q: number %d, want %d", streams[s], r.LastStreamSequenceNumber, recs[1].Num)
		}
		w.saved(recs)
	case "gw":
		_, pb, _ := w.events(s, 1, "grpc")
		if r, err := w.cl.OptimisticSave(ctx, &rangedbpb.OptimisticSaveRequest{ExpectedStreamSequenceNumber: last + 1, StreamName: streams[s], Events: pb}); err == nil {
			failf("gRPC save to %q expecting %d of %d: saved (%v)", streams[s], last+1, last, r)
		}
	case "gd":
		w.caughtUp()
		r, err := w.cl.OptimisticDeleteStream(ctx, &rangedbpb.OptimisticDeleteStreamRequest{ExpectedStreamSequenceNumber: last, StreamName: streams[s]})
		if last == 0 {
			if err == nil {
				failf("gRPC delete of missing %q: succeeded", streams[s])
			}
			return
		}
		if err != nil {
			failf("gRPC delete of %q: %v", streams[s], err)
		}
		if uint64(r.EventsDeleted) != last {
			failf("gRPC delete of %q: %d events, want %d", streams[s], r.EventsDeleted, last)
		}
		w.gone(s)
	case "hd":
		w.caughtUp()
		code, text, _ := w.request("POST", "/api/delete-stream/"+url.PathEscape(streams[s]), map[string]string{"ExpectedStreamSequenceNumber": fmt.Sprint(last)}, "")
		want := 200
		if last == 0 {
			want = 404
		}
		if code != want {
			failf("HTTP delete of %q: status %d, %s; want %d", streams[s], code, text, want)
		}
		if last != 0 {
			w.gone(s)
		}
	case "cu":
		w.printed()
		w.proxy.cut()
	case "in":
		w.end(syscall.SIGINT)
		w.start()
	case "db":
		w.end(syscall.SIGINT)
		o := *w.other
		w.other = &world{db: w.db, model: w.model, next: w.next, deleted: w.deleted}
		w.db, w.model, w.next, w.deleted = o.db, o.model, o.next, o.deleted
		w.start()
	case "ki":
		w.end(syscall.SIGKILL)
		w.start()
	default:
		panic("op " + op)
	}
}

func decode(ext, text string) ([]rec, error) {
	out := []rec{}
	switch ext {
	case "json":
		var rs []jsonRec
		if err := json.Unmarshal([]byte(text), &rs); err != nil {
			return nil, fmt.Errorf("%v in %s", err, text)
		}
		for _, r := range rs {
			out = append(out, r.rec())
		}
	case "ndjson":
		for _, line := range strings.Split(text, "\n") {
			if strings.TrimSpace(line) == "" {
				continue
			}
			var r jsonRec
			if err := json.Unmarshal([]byte(line), &r); err != nil {
				return nil, fmt.Errorf("%v in %s", err, text)
			}
			out = append(out, r.rec())
		}
	case "msgpack":
		b, err := base64.RawStdEncoding.DecodeString(text)
		if err != nil {
			return nil, err
		}
		it := msgpackrecordiostream.New().Read(bytes.NewReader(b))
		for it.Next() {
			r := it.Record()
			d, _ := json.Marshal(plain(r.Data))
			m, _ := json.Marshal(plain(r.Metadata))
			out = append(out, rec{r.StreamName, r.StreamSequenceNumber, r.AggregateType, r.AggregateID, r.EventType, compact(d), compact(m), r.GlobalSequenceNumber})
		}
		if it.Err() != nil {
			return nil, it.Err()
		}
	}
	return out, nil
}

func plain(v interface{}) interface{} {
	if r, ok := v.(rangedb.Event); ok {
		return r
	}
	return v
}

func (w *world) where(keep func(rec) bool) []rec {
	out := []rec{}
	for _, r := range w.model {
		if keep(r) {
			out = append(out, r)
		}
	}
	return out
}

func (w *world) compare(what string, got, want []rec) {
	for i := 1; i < len(got); i++ {
		if got[i].Global <= got[i-1].Global {
			failf("%s: global numbers do not rise: %v", what, got)
		}
	}
	if !reflect.DeepEqual(noGlobal(got), noGlobal(want)) {
		failf("%s:\n%v\nwant\n%v", what, got, want)
	}
	for _, r := range got {
		for i := range w.model {
			if w.model[i].Stream == r.Stream && w.model[i].Num == r.Num {
				if w.model[i].Global == 0 {
					w.model[i].Global = r.Global
				}
				if w.model[i].Global != r.Global {
					failf("%s: global number %d of %v, elsewhere %d", what, r.Global, r, w.model[i].Global)
				}
			}
		}
	}
}

func (w *world) read(path string, want []rec, missing bool) {
	for _, ext := range []string{"json", "ndjson", "msgpack"} {
		p := "/api/" + path + "." + ext
		code, text, _ := w.request("GET", p, nil, "")
		if missing {
			if code != 404 {
				failf("GET %s: status %d, %s; want 404", p, code, text)
			}
			continue
		}
		if code != 200 {
			failf("GET %s: status %d, %s", p, code, text)
		}
		got, err := decode(ext, text)
		if err != nil {
			failf("GET %s: %v", p, err)
		}
		w.compare("GET "+p, got, want)
	}
}

func (w *world) rpcRead(what string, want []rec, missing bool, open func(ctx context.Context) (interface {
	Recv() (*rangedbpb.Record, error)
}, error)) {
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	s, err := open(ctx)
	if err != nil {
		failf("%s: %v", what, err)
	}
	got := []rec{}
	for {
		m, err := s.Recv()
		if err == io.EOF {
			break
		}
		if err != nil {
			if missing && (status.Code(err) == codes.NotFound || strings.Contains(err.Error(), "not found")) {
				return
			}
			failf("%s: %v", what, err)
		}
		got = append(got, fromPb(m))
	}
	if missing {
		failf("%s: no error, %v", what, got)
	}
	w.compare(what, got, want)
}

type recvRecords = interface {
	Recv() (*rangedbpb.Record, error)
}

func (w *world) check() {
	all := func(rec) bool { return true }
	w.caughtUp()
	w.read("all-events", w.where(all), false)
	w.rpcRead("gRPC Events", w.where(all), false, func(ctx context.Context) (recvRecords, error) {
		return w.cl.Events(ctx, &rangedbpb.EventsRequest{})
	})
	for i := range streams {
		i := i
		st := w.where(func(r rec) bool { return r.Stream == streams[i] })
		w.read("events-by-stream/"+url.PathEscape(streams[i]), st, len(st) == 0)
		w.rpcRead("gRPC EventsByStream "+streams[i], st, len(st) == 0, func(ctx context.Context) (recvRecords, error) {
			return w.cl.EventsByStream(ctx, &rangedbpb.EventsByStreamRequest{StreamName: streams[i]})
		})
		ty := w.where(func(r rec) bool { return r.Type == types[i] })
		w.read("events-by-aggregate-type/"+url.PathEscape(types[i]), ty, false)
		w.rpcRead("gRPC EventsByAggregateType "+types[i], ty, false, func(ctx context.Context) (recvRecords, error) {
			return w.cl.EventsByAggregateType(ctx, &rangedbpb.EventsByAggregateTypeRequest{AggregateTypes: []string{types[i]}})
		})
	}
	two := w.where(func(r rec) bool { return r.Type == types[0] || r.Type == types[1] })
	w.read("events-by-aggregate-type/"+url.PathEscape(types[0]+","+types[1]), two, false)
	if !w.deleted {
		w.stats()
	}
	w.pages()
}

func (w *world) stats() {
	want := map[string]int{}
	for _, r := range w.model {
		want[r.Type]++
	}
	for end := time.Now().Add(patience); ; time.Sleep(2 * time.Millisecond) {
		code, text, _ := w.request("GET", "/api/list-aggregate-types", nil, "")
		var l struct {
			Data []struct {
				Name        string
				TotalEvents int
				Links       struct{ Self string }
			}
			TotalEvents int
		}
		if err := json.Unmarshal([]byte(text), &l); err != nil || code != 200 {
			failf("GET list-aggregate-types: %d %v %s", code, err, text)
		}
		got := map[string]int{}
		for _, d := range l.Data {
			got[d.Name] = d.TotalEvents
		}
		if l.TotalEvents < len(w.model) && time.Now().Before(end) {
			continue
		}
		if l.TotalEvents != len(w.model) || !reflect.DeepEqual(got, want) {
			failf("GET list-aggregate-types: %s\nwant %v", text, want)
		}
		for _, d := range l.Data {
			u, err := url.Parse(d.Links.Self)
			if err != nil {
				failf("list-aggregate-types: link %q: %v", d.Links.Self, err)
			}
			code, text, _ := w.request("GET", u.RequestURI(), nil, "")
			got, err := decode("json", text)
			if code != 200 || err != nil {
				failf("list-aggregate-types: link %q: status %d %v %s", d.Links.Self, code, err, text)
			}
			w.compare("list-aggregate-types: link "+d.Links.Self, got, w.where(func(r rec) bool { return r.Type == d.Name }))
		}
		return
	}
}

// pages follows every link of the web UI.
func (w *world) pages() {
	seen := map[string]bool{}
	shown := map[string]int{}
	todo := []string{"/"}
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		if seen[p] {
			continue
		}
		seen[p] = true
		if len(seen) > 300 {
			failf("more than 300 pages")
		}
		code, text, location := w.request("GET", p, nil, "")
		if p == "/" && code/100 == 3 {
			todo = append(todo, location)
			continue
		}
		if code != 200 {
			failf("page %s: status %d %s", p, code, location)
		}
		if strings.HasPrefix(p, "/static/") {
			continue
		}
		for i := 1; i <= w.n; i++ {
			tok := fmt.Sprintf("tok%dx", i)
			if strings.Contains(text, tok) {
				shown[tok]++
			}
		}
		doc, err := html.Parse(strings.NewReader(text))
		if err != nil {
			failf("page %s: %v", p, err)
		}
		base, err := url.Parse("http://" + w.srv.http + p)
		if err != nil {
			failf("page %s: %v", p, err)
		}
		var walk func(*html.Node)
		walk = func(n *html.Node) {
			for _, a := range n.Attr {
				if a.Key != "href" && a.Key != "src" {
					continue
				}
				u, err := base.Parse(a.Val)
				if err != nil {
					failf("page %s: link %q: %v", p, a.Val, err)
				}
				if u.Host == base.Host && u.Scheme == "http" && !strings.HasPrefix(u.Path, "/api/") && !strings.HasPrefix(a.Val, "#") {
					todo = append(todo, u.RequestURI())
				}
			}
			for c := n.FirstChild; c != nil; c = c.NextSibling {
				walk(c)
			}
		}
		walk(doc)
	}
	for i := 1; i <= w.n; i++ {
		tok := fmt.Sprintf("tok%dx", i)
		live := false
		for _, r := range w.model {
			live = live || strings.Contains(r.Data, tok)
		}
		// the pages of its stream and of its aggregate type
		if live && shown[tok] < 2 {
			failf("event %s is on %d of the pages %v", tok, shown[tok], seen)
		}
		if !live && shown[tok] > 0 {
			failf("event %s, deleted or rejected, is on %d pages", tok, shown[tok])
		}
	}
}

func main() {
	runtime.LockOSThread() // the server ends with its thread
	bin := flag.String("bin", "", "server program")
	disk := flag.Bool("disk", false, "LevelDB store")
	ops := flag.String("ops", "", "operations")
	watch := flag.String("watch", "", "subscriber program")
	watched := flag.String("watched", "", "aggregate types for the subscriber program")
	flag.Parse()
	for i := range types {
		streams = append(streams, rangedb.GetStream(types[i], ids[i]))
	}
	dir, err := os.MkdirTemp("", "e2e")
	if err != nil {
		panic(err)
	}
	w := &world{bin: *bin, dir: dir, disk: *disk, db: "db", other: &world{db: "other/db", next: map[string]uint64{}}, next: map[string]uint64{}, watched: *watched}
	if *watch != "" {
		w.proxy = newProxy()
	}
	done := func(code int) {
		if w.srv != nil && w.srv.cmd.Process != nil {
			_ = w.srv.cmd.Process.Kill()
		}
		if w.watcher != nil {
			_ = w.watcher.cmd.Process.Kill()
		}
		os.RemoveAll(dir)
		os.Exit(code)
	}
	defer func() {
		if f, ok := recover().(failure); ok {
			fmt.Printf("FAIL after %v\n%s\n", w.log, f.text)
			done(1)
		}
	}()
	w.start()
	if *watch != "" {
		w.watch(*watch)
	}
	for _, op := range strings.Split(*ops, ",") {
		if op != "" {
			w.op(op)
		}
	}
	w.op("hs0")
	w.op("gs1")
	w.printed()
	w.check()
	w.end(syscall.SIGINT)
	fmt.Println("OK")
	done(0)
}
