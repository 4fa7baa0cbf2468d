package h

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"time"

	"google.golang.org/grpc"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbserver"
	"github.com/inklabs/rangedb/pkg/rangedbws"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"

	"verifmc/ctl"
	"verifmc/explore"
)

// netServer is a gRPC or websocket server whose handlers are called directly,
// with a connection that does what the client does.
type netServer struct {
	x    *ctl.X
	grpc rangedbpb.RangeDBServer
	ws   http.Handler
	stop func()
}

var transports = []string{"gRPC", "websocket"}

func startNet(x *ctl.X, transport int, st rangedb.Store) *netServer {
	s := &netServer{x: x}
	if transport == 0 {
		g, err := rangedbserver.New(rangedbserver.WithStore(st))
		if err != nil {
			x.FailSig("server", "gRPC server: %v", err)
			return nil
		}
		s.grpc, s.stop = g, func() { _ = g.Stop() }
	} else {
		w, err := rangedbws.New(rangedbws.WithStore(st))
		if err != nil {
			x.FailSig("server", "websocket server: %v", err)
			return nil
		}
		s.ws, s.stop = w, w.Stop
	}
	return s
}

// netClient is one connected streaming client.
type netClient struct {
	s          *netServer
	what       string
	got        []Rec
	onRecord   func(n int) error // called for the nth record before it is taken; an error means the connection breaks
	ctx        context.Context
	disconnect func()
	returned   bool  // the handler has returned
	err        error // the handler's (gRPC) error
	ended      bool  // the client has seen the end of the stream
	sending    int
}

func (c *netClient) take(r *rangedb.Record, send bool) error {
	if c.returned && send {
		c.s.x.FailSig("late-send", "%s: record sent after the handler returned", c.what)
	}
	if c.sending++; c.sending > 1 {
		c.s.x.FailSig("concurrent-send", "%s: two records sent at the same time", c.what)
	}
	defer func() { c.sending-- }()
	if c.onRecord != nil {
		if err := c.onRecord(len(c.got) + 1); err != nil {
			return err
		}
	}
	if send && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	c.got = append(c.got, toRec(r))
	return nil
}

// fakeStream is the server side of a gRPC stream.
type fakeStream struct {
	grpc.ServerStream
	c *netClient
}

func (f *fakeStream) Context() context.Context { return f.c.ctx }
func (f *fakeStream) Send(p *rangedbpb.Record) error {
	ids := rangedb.NewEventIdentifier()
	ids.Bind(&Ev{})
	f.c.s.x.Point()
	r, err := rangedbpb.ToRecord(p, ids)
	if err != nil {
		f.c.s.x.FailSig("record", "%s: unreadable record: %v", f.c.what, err)
		return err
	}
	return f.c.take(r, true)
}

// hijackWriter gives a handler its connection.
type hijackWriter struct {
	*httptest.ResponseRecorder
	conn net.Conn
}

func (w *hijackWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return w.conn, bufio.NewReadWriter(bufio.NewReader(w.conn), bufio.NewWriter(w.conn)), nil
}

// connect starts a client. from < 0: live (gRPC only).
func (s *netServer) connect(what string, types []string, from int, onRecord func(n int) error) *netClient {
	c := &netClient{s: s, what: what, onRecord: onRecord}
	ctx, cancel := context.WithCancel(bgCtx)
	c.ctx = ctx
	if s.grpc != nil {
		c.disconnect = cancel
		st := &fakeStream{c: c}
		go func() {
			switch {
			case from < 0:
				c.err = s.grpc.SubscribeToLiveEvents(&rangedbpb.SubscribeToLiveEventsRequest{}, st)
			case types == nil:
				c.err = s.grpc.SubscribeToEvents(&rangedbpb.SubscribeToEventsRequest{GlobalSequenceNumber: uint64(from)}, st)
			default:
				c.err = s.grpc.SubscribeToEventsByAggregateType(&rangedbpb.SubscribeToEventsByAggregateTypeRequest{AggregateTypes: types, GlobalSequenceNumber: uint64(from)}, st)
			}
			c.returned, c.ended = true, true
			cancel() // as gRPC does
		}()
		return c
	}
	server, client := net.Pipe()
	closed := false
	c.disconnect = func() { closed = true; _ = client.Close() }
	url := fmt.Sprintf("http://h/events?global-sequence-number=%d", from)
	if types != nil {
		url = fmt.Sprintf("http://h/events/%s?global-sequence-number=%d", strings.Join(types, ","), from)
	}
	r := httptest.NewRequest("GET", url, nil).WithContext(ctx)
	for k, v := range map[string]string{"Connection": "Upgrade", "Upgrade": "websocket", "Sec-WebSocket-Version": "13", "Sec-WebSocket-Key": "dGhlIHNhbXBsZSBub25jZQ=="} {
		r.Header.Set(k, v)
	}
	rec := httptest.NewRecorder()
	go func() {
		s.ws.ServeHTTP(&hijackWriter{rec, server}, r)
		c.returned = true
		cancel()                // as net/http does
		if rec.Body.Len() > 0 { // not upgraded: net/http closes it
			_ = server.Close()
			if !closed {
				s.x.FailSig("refused", "%s: refused with %d %s", what, rec.Code, rec.Body)
			}
		}
	}()
	go func() {
		defer func() { c.ended = true }()
		br := bufio.NewReaderSize(client, 16)
		resp, err := http.ReadResponse(br, r)
		if err != nil {
			return
		}
		if resp.StatusCode != 101 {
			s.x.FailSig("refused", "%s: %s", what, resp.Status)
			return
		}
		for {
			op, msg, err := readFrame(br)
			if err != nil {
				return
			}
			if op == 8 {
				continue
			}
			record, derr := recordFromJSON(msg)
			if op != 1 || derr != nil {
				s.x.FailSig("record", "%s: frame %d %q: %v", what, op, msg, derr)
				return
			}
			s.x.Point()
			if c.take(record, false) != nil {
				_ = client.Close()
				return
			}
		}
	}()
	return c
}

// readFrame reads one unmasked, unfragmented websocket frame.
func readFrame(r *bufio.Reader) (op int, data []byte, err error) {
	var h [2]byte
	if _, err = io.ReadFull(r, h[:]); err != nil {
		return
	}
	if h[0]&0xf0 != 0x80 || h[1]&0x80 != 0 {
		return 0, nil, errors.New("masked or fragmented frame")
	}
	n := int(h[1])
	for _, ext := range []struct{ code, size int }{{126, 2}, {127, 8}} {
		if n == ext.code {
			b := make([]byte, ext.size)
			if _, err = io.ReadFull(r, b); err != nil {
				return
			}
			n = 0
			for _, c := range b {
				n = n<<8 | int(c)
			}
			break
		}
	}
	data = make([]byte, n)
	_, err = io.ReadFull(r, data)
	return int(h[0] & 15), data, err
}

func recordFromJSON(b []byte) (*rangedb.Record, error) {
	ids := rangedb.NewEventIdentifier()
	ids.Bind(&Ev{})
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	return jsonrecordserializer.UnmarshalRecord(d, ids)
}

func netCfg() ctl.Config {
	return ctl.Config{Background: bgLevelDB, BlockCost: 1, SelectCost: 1, Families: true, MaxTimers: 400}
}

// netFromHarness: a client that starts from a number while events are saved.
func netFromHarness(transport, quick, thorough int) *explore.Harness {
	starts := []int{0, 1, 2, 3, 4}
	return &explore.Harness{Name: "from-" + transports[transport], Quick: quick, Thorough: thorough, Cfg: netCfg(),
		Doc: fmt.Sprintf("a %s client subscribes from g in %v to all events or one or two aggregate types, on a store with 0 or 2 events, while every pair of %d writer scripts saves and then disconnects; all interleavings up to the bound; oracle: exactly the matching stored events from g, in order; after disconnecting, the handler returns and no goroutine is left", transports[transport], starts, len(writerScripts)),
		Body: func(x *ctl.X) {
			pre := 2 * x.ChooseF(2, 0, func(i int) string { return fmt.Sprint(2*i, " events stored before") })
			g := starts[x.ChooseF(len(starts), 0, func(i int) string { return fmt.Sprint("start from ", starts[i]) })]
			k := subKinds[x.ChooseF(len(subKinds), 0, func(i int) string { return fmt.Sprint("types ", subKinds[i]) })]
			w0 := x.ChooseF(len(writerScripts), 0, func(i int) string { return "writer " + writerScripts[i].name })
			w1 := w0 + x.ChooseF(len(writerScripts)-w0, 0, func(i int) string { return "writer " + writerScripts[w0+i].name })
			e := openStore(x, "mem", false)
			h := newHist(x, e.St)
			if pre > 0 {
				h.saveN("i", "tb!1", 1)
				h.saveN("i", "ta!1", 1)
			}
			s := startNet(x, transport, e.St)
			if s == nil {
				return
			}
			x.Quiesce()
			base := len(x.Goroutines())
			x.Explore(true)
			c := s.connect(transports[transport]+" client", k, g, nil)
			for i, w := range []int{w0, w1} {
				th, sc := fmt.Sprintf("w%d", i), writerScripts[w]
				x.Go(th, func() {
					for _, v := range sc.saves {
						h.saveN(th, v[0].(string), v[1].(int))
					}
				})
			}
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "threads %v never finish: %s", stuck, x.Describe())
				return
			}
			h.saveN("z", "ta!9", 1)
			x.Quiesce()
			if want := wanted(x, e.St, uint64(g), k); !recsEqual(c.got, want) {
				x.FailSig("delivery", "%s client from %d of %v with %d events before and writers %s, %s received %s, want %s", transports[transport], g, k, pre,
					writerScripts[w0].name, writerScripts[w1].name, shortRecs(c.got), shortRecs(want))
			}
			x.Observe("%d %d %v %s", pre, g, k, shortRecs(c.got))
			s.release(c, base)
			s.stop()
			x.Quiesce()
		}}
}

// release disconnects the client and sees that nothing is left of it.
func (s *netServer) release(c *netClient, base int) {
	x := s.x
	c.disconnect()
	x.Quiesce()
	if !c.returned {
		x.FailSig("not-released", "%s: the handler does not return after the client disconnected: %s", c.what, x.Describe())
	}
	if n := len(x.Goroutines()); n != base {
		x.FailSig("leak", "%s: %d goroutines after it disconnected, %d before it connected: %s", c.what, n, base, x.Describe())
	}
}

var errConn = errors.New("connection broken")

// netSlowHarness: clients that stall, break or disconnect next to a healthy one.
func netSlowHarness(transport, quick, thorough int) *explore.Harness {
	behaviours := []string{"is healthy", "stalls 150ms in the 1st record", "stalls 150ms in the 5th record, like another one", "stalls for good in the 1st record", "breaks in the 2nd record", "disconnects from another thread", "stalls 90ms in each of the first records"}
	kinds := []string{"all from 1", "ta, tb from 1", "live"}
	if transport == 1 {
		kinds = kinds[:2]
	}
	return &explore.Harness{Name: "slow-" + transports[transport], Quick: quick, Thorough: thorough, Cfg: netCfg(),
		Doc: fmt.Sprintf("a %s client of %v that %q next to a healthy client while 30 events are saved (more than the 20 a subscriber's buffer holds); all interleavings up to the bound, timers in real order; oracle: the writer finishes, the healthy client receives everything, the other one everything or a gap-free prefix after which its stream ends; after disconnecting, the handler returns and no goroutine is left", transports[transport], kinds, behaviours),
		Body: func(x *ctl.X) {
			b := x.ChooseF(len(behaviours), 0, func(i int) string { return behaviours[i] })
			k := x.ChooseF(len(kinds), 0, func(i int) string { return kinds[i] })
			pre := x.ChooseF(2, 0, func(i int) string { return []string{"nothing stored before", "2 events stored before"}[i] })
			e := openStore(x, "mem", false)
			h := newHist(x, e.St)
			if pre == 1 {
				h.saveN("i", "ta!1", 2)
			}
			s := startNet(x, transport, e.St)
			if s == nil {
				return
			}
			healthy := s.connect("the healthy client", nil, 1, nil)
			x.Quiesce()
			base := len(x.Goroutines())
			types, from := []string(nil), 1
			switch k {
			case 1:
				types = []string{"ta", "tb"}
			case 2:
				from = -1
			}
			behave := func() (func(n int) error, *netClient) {
				c := new(netClient)
				return func(n int) error {
					switch {
					case b == 1 && n == 1, b == 2 && n == 5:
						time.Sleep(150 * time.Millisecond)
					case b == 3 && n == 1:
						<-c.ctx.Done()
						return errConn
					case b == 4 && n == 2:
						return errConn
					case b == 6 && n < 8:
						time.Sleep(90 * time.Millisecond)
					}
					return nil
				}, c
			}
			x.Explore(true)
			var cs []*netClient
			for i := 0; i == 0 || b == 2 && i < 2; i++ {
				f, p := behave()
				c := s.connect(fmt.Sprintf("the %s client of %s that %s", transports[transport], kinds[k], behaviours[b]), types, from, f)
				*p = *c
				cs = append(cs, c)
			}
			if k == 2 { // live: from when it is connected
				x.Explore(false)
				x.Quiesce()
				x.Explore(true)
			}
			x.Go("writer", func() {
				for i := 0; i < 30; i++ {
					h.saveN("w", []string{"ta!1", "tb!1", "tc!1"}[i%3], 1)
				}
			})
			if b == 5 {
				x.Go("disconnect", cs[0].disconnect)
			}
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "threads %v never finish with a client that %s: %s", stuck, behaviours[b], x.Describe())
				return
			}
			time.Sleep(3 * time.Second)
			x.Quiesce()
			h.saveN("z", "ta!9", 1)
			h.saveN("z", "tb!9", 1)
			time.Sleep(3 * time.Second)
			x.Quiesce()
			if want := wanted(x, e.St, 1, nil); !recsEqual(healthy.got, want) {
				x.FailSig("healthy", "the healthy client next to one that %s received %s, want %s", behaviours[b], shortRecs(healthy.got), shortRecs(want))
			}
			for _, c := range cs {
				lo := uint64(1)
				if k == 2 {
					lo = uint64(1 + 2*pre)
				}
				want := wanted(x, e.St, lo, types)
				if !isPrefix(c.got, want) {
					x.FailSig("gap", "%s received %s, not a gap-free prefix of %s", c.what, shortRecs(c.got), shortRecs(want))
				} else if len(c.got) < len(want) && b == 0 {
					x.FailSig("dropped", "%s received only %d records of %d", c.what, len(c.got), len(want))
				} else if len(c.got) < len(want) && !c.ended && b != 3 {
					x.FailSig("silent-end", "%s received %d records of %d, no more, and no end of its stream", c.what, len(c.got), len(want))
				} else if s.grpc != nil && len(c.got) < len(want) && b != 3 && c.err == nil && b != 5 {
					x.FailSig("silent-end", "%s received %d records of %d and then a normal end of its stream", c.what, len(c.got), len(want))
				}
				x.Observe("%d %d %d %s", b, k, pre, shortRecs(c.got))
			}
			for i, c := range cs {
				if i < len(cs)-1 {
					c.disconnect()
					x.Quiesce()
					continue
				}
				s.release(c, base)
			}
			s.stop()
			x.Quiesce()
		}}
}

// netBurstHarness: stalled clients while more is saved than all buffers hold.
func netBurstHarness() *explore.Harness {
	return &explore.Harness{Name: "burst", Cfg: netCfg(), ExecsPerGC: 10,
		Doc: "0 to 3 clients of a gRPC or websocket server that stall for good in their 1st record, while 400 events (more than the buffers between store and server hold) are saved at once, then 5 more a second later; oracle: the writer finishes, a healthy client receives everything, also one that connects afterwards",
		Body: func(x *ctl.X) {
			transport := x.ChooseF(2, 0, func(i int) string { return transports[i] })
			n := x.ChooseF(4, 0, func(i int) string { return fmt.Sprint(i, " stalled clients") })
			e := openStore(x, "mem", false)
			h := newHist(x, e.St)
			s := startNet(x, transport, e.St)
			if s == nil {
				return
			}
			healthy := s.connect("the healthy client", nil, 1, nil)
			var cs []*netClient
			for i := 0; i < n; i++ {
				block := make(chan struct{})
				c := s.connect("a stalled client", nil, 1, func(int) error { <-block; return errConn })
				dis := c.disconnect
				c.disconnect = func() { close(block); dis() }
				cs = append(cs, c)
			}
			x.Quiesce()
			x.Go("writer", func() {
				for i := 0; i < 400; i++ {
					h.saveN("w", "ta!1", 1)
				}
			})
			if stuck := x.Quiesce(); len(stuck) > 0 {
				x.FailSig("stuck", "threads %v never finish: %s", stuck, x.Describe())
				return
			}
			time.Sleep(time.Second)
			h.saveN("z", "tb!9", 5)
			late := s.connect("the late client", nil, 1, nil)
			time.Sleep(time.Second)
			h.saveN("z", "tb!9", 2)
			time.Sleep(time.Second)
			x.Quiesce()
			want := wanted(x, e.St, 1, nil)
			for _, c := range []*netClient{healthy, late} {
				if !recsEqual(c.got, want) {
					x.FailSig("healthy", "%s of the %s server, next to %d that stall, received %d records of %d (stream ended: %v)", c.what, transports[transport], n, len(c.got), len(want), c.ended)
				}
			}
			x.Observe("%d %d %d", transport, n, len(healthy.got))
			for _, c := range append(cs, healthy, late) {
				c.disconnect()
			}
			x.Quiesce()
			s.stop()
			x.Quiesce()
		}}
}

func init() {
	explore.Register(&explore.Property{ID: "C19", Level: "model_checking", Rule: concRule, Assumptions: append([]string{"the gRPC and TCP connections are replaced by in-process ones: a gRPC stream whose Send is the client's receive, and a synchronous pipe carrying the websocket"}, concAssume...),
		Harnesses: []*explore.Harness{netFromHarness(0, 1, 2), netFromHarness(1, 1, 2), netSlowHarness(0, 0, 1), netSlowHarness(1, 0, 1), netBurstHarness()}})
}
