package h

import (
	"context"
	"encoding/binary"
	"io"
	"net"
	"strings"

	"github.com/lib/pq"
	"google.golang.org/grpc/test/bufconn"

	"verifmc/ctl"
)

// pgServer speaks the PostgreSQL wire protocol to lib/pq over in-process
// connections. Its goroutines run first, without alternatives: one statement
// is one step, and the interleavings of statements come from the clients.
type pgServer struct {
	x    *ctl.X
	db   *pgDB
	lis  *bufconn.Listener
	pids int32
	// fault, if set, is asked before every statement; it returns the error to
	// give instead of executing it. A code "drop" closes the connection before
	// executing, "dropafter" after.
	fault func(s *pgSess, sql string) *pgErr
	// unsupported holds a statement this server cannot interpret.
	unsupported string
	log         bool
}

type pgSess struct {
	srv        *pgServer
	db         *pgDB
	c          net.Conn
	pid        int32
	tx         *pgTx
	listens    map[string]bool
	advSession []int64
	cancelled  chan struct{}
	closed     chan struct{}
	busy       bool
	pending    [][]byte
	stmts      map[string]*pgPrepared
	portals    map[string]*pgPortal
	noShuffle  bool
}

type pgPrepared struct {
	st  *pgStmt
	sql string
}

type pgPortal struct {
	p      *pgPrepared
	params []interface{}
	fmts   []byte // result formats (1: binary)
}

var bgPg = []string{"github.com/syndtr/goleveldb/", "github.com/lib/pq.", "database/sql.", "net.", "context.", "google.golang.org/grpc/", "verifmc/h.newPgServer", "verifmc/h.(*pgServer)"}

func newPgServer(x *ctl.X) *pgServer {
	srv := &pgServer{x: x, db: newPgDB(), lis: bufconn.Listen(1 << 16)}
	pq.VerifDial = func(ctx context.Context) (net.Conn, error) { return srv.lis.Dial() }
	go srv.serve()
	return srv
}

func (srv *pgServer) serve() {
	for {
		c, err := srv.lis.Accept()
		if err != nil {
			return
		}
		srv.pids++
		s := &pgSess{srv: srv, db: srv.db, c: c, pid: srv.pids, listens: map[string]bool{}, cancelled: make(chan struct{}, 1), closed: make(chan struct{}),
			stmts: map[string]*pgPrepared{}, portals: map[string]*pgPortal{}}
		srv.db.sess = append(srv.db.sess, s)
		go srv.session(s)
	}
}

// close ends every session.
func (srv *pgServer) close() {
	_ = srv.lis.Close()
	for _, s := range append([]*pgSess(nil), srv.db.sess...) {
		_ = s.c.Close()
	}
}

func (s *pgSess) end() {
	close(s.closed)
	s.endTx(false)
	for _, k := range s.advSession {
		s.advUnlock(k)
	}
	for i, o := range s.db.sess {
		if o == s {
			s.db.sess = append(s.db.sess[:i:i], s.db.sess[i+1:]...)
		}
	}
	_ = s.c.Close()
}

type pgMsg struct {
	t byte
	b []byte
}

func (srv *pgServer) session(s *pgSess) {
	var hdr [4]byte
	for {
		if _, err := io.ReadFull(s.c, hdr[:]); err != nil {
			s.end()
			return
		}
		b := make([]byte, binary.BigEndian.Uint32(hdr[:])-4)
		if _, err := io.ReadFull(s.c, b); err != nil {
			s.end()
			return
		}
		code := binary.BigEndian.Uint32(b)
		if code == 80877103 { // SSLRequest
			_, _ = s.c.Write([]byte{'N'})
			continue
		}
		if code == 80877102 { // CancelRequest
			pid := int32(binary.BigEndian.Uint32(b[4:]))
			for _, o := range srv.db.sess {
				if o.pid == pid && o.busy {
					select {
					case o.cancelled <- struct{}{}:
					default:
					}
				}
			}
			s.end()
			return
		}
		break
	}
	out := pgBuf{}
	out.msg('R', int32b(0))
	out.msg('S', []byte("client_encoding\x00UTF8\x00"))
	out.msg('S', []byte("server_version\x0014.1\x00"))
	out.msg('K', append(int32b(s.pid), int32b(4711)...))
	out.msg('Z', []byte{'I'})
	if _, err := s.c.Write(out.b); err != nil {
		s.end()
		return
	}
	// a reader of its own notices a closed connection while a statement waits
	in := make(chan pgMsg, 64)
	gone := make(chan struct{})
	go srv.read(s, in, gone)
	skip := false
	for {
		var m pgMsg
		select {
		case m = <-in:
		case <-gone:
			select {
			case m = <-in:
			default:
				s.end()
				return
			}
		}
		var o pgBuf
		if skip && m.t != 'S' && m.t != 'X' {
			continue
		}
		drop := false
		s.busy = true
		switch m.t {
		case 'X':
			s.end()
			return
		case 'Q':
			drop = s.simple(&o, strings.TrimSuffix(string(m.b), "\x00"))
			o.msg('Z', []byte{s.status()})
		case 'P':
			name, rest := pgCstr(m.b)
			sql, _ := pgCstr(rest)
			st, err := pgParse(sql)
			if err != nil {
				srv.noSupport(sql, err)
			}
			if err == nil && s.tx != nil && s.tx.failed && st.kind != "commit" && st.kind != "rollback" {
				err = pgErrf("25P02", "current transaction is aborted, commands ignored until end of transaction block")
			}
			if err == nil && st.table != "" && (st.kind == "select" || st.kind == "insert" || st.kind == "update" || st.kind == "delete") {
				_, err = s.table(st.table)
			}
			if err != nil {
				s.fail(&o, err)
				skip = true
				break
			}
			s.stmts[name] = &pgPrepared{st, sql}
			o.msg('1', nil)
		case 'D':
			kind := m.b[0]
			name, _ := pgCstr(m.b[1:])
			var p *pgPrepared
			if kind == 'S' {
				p = s.stmts[name]
				if p != nil {
					b := int16b(int16(p.st.nparams))
					for i := 0; i < p.st.nparams; i++ {
						b = append(b, int32b(25)...)
					}
					o.msg('t', b)
				}
			} else if po := s.portals[name]; po != nil {
				p = po.p
			}
			if p == nil {
				s.fail(&o, pgErrf("26000", "prepared statement %q does not exist", name))
				skip = true
				break
			}
			s.describe(&o, p.st)
		case 'B':
			portal, rest := pgCstr(m.b)
			name, rest := pgCstr(rest)
			nf := int(binary.BigEndian.Uint16(rest))
			rest = rest[2+2*nf:]
			n := int(binary.BigEndian.Uint16(rest))
			rest = rest[2:]
			var params []interface{}
			for i := 0; i < n; i++ {
				l := int32(binary.BigEndian.Uint32(rest))
				rest = rest[4:]
				if l < 0 {
					params = append(params, nil)
					continue
				}
				params = append(params, string(rest[:l]))
				rest = rest[l:]
			}
			p := s.stmts[name]
			if p == nil {
				s.fail(&o, pgErrf("26000", "prepared statement %q does not exist", name))
				skip = true
				break
			}
			if len(params) != p.st.nparams {
				s.fail(&o, pgErrf("08P01", "bind message supplies %d parameters, but the statement requires %d", len(params), p.st.nparams))
				skip = true
				break
			}
			po := &pgPortal{p: p, params: params}
			for n := int(binary.BigEndian.Uint16(rest)); n > 0; n-- {
				rest = rest[2:]
				po.fmts = append(po.fmts, rest[1])
			}
			s.portals[portal] = po
			o.msg('2', nil)
		case 'E':
			name, _ := pgCstr(m.b)
			po := s.portals[name]
			if po == nil {
				s.fail(&o, pgErrf("34000", "portal %q does not exist", name))
				skip = true
				break
			}
			var ok bool
			ok, drop = s.exec(&o, po.p.st, po.p.sql, po.params, po.fmts, false)
			skip = !ok
		case 'C':
			if m.b[0] == 'S' {
				name, _ := pgCstr(m.b[1:])
				delete(s.stmts, name)
			}
			o.msg('3', nil)
		case 'S':
			skip = false
			o.msg('Z', []byte{s.status()})
		case 'H':
		default:
			s.fail(&o, pgErrf("08P01", "unknown message %q", m.t))
		}
		if drop {
			s.end()
			return
		}
		if m.t == 'S' || m.t == 'Q' {
			s.busy = false
			select {
			case <-s.cancelled: // a cancel request that came too late
			default:
			}
			for _, n := range s.pending {
				o.b = append(o.b, n...)
			}
			s.pending = nil
		}
		if len(o.b) > 0 {
			if _, err := s.c.Write(o.b); err != nil {
				s.end()
				return
			}
		}
	}
}

func (srv *pgServer) read(s *pgSess, in chan pgMsg, gone chan struct{}) {
	defer close(gone)
	var hdr [5]byte
	for {
		if _, err := io.ReadFull(s.c, hdr[:]); err != nil {
			return
		}
		b := make([]byte, binary.BigEndian.Uint32(hdr[1:])-4)
		if _, err := io.ReadFull(s.c, b); err != nil {
			return
		}
		select {
		case in <- pgMsg{hdr[0], b}:
		case <-s.closed:
			return
		}
	}
}

func (srv *pgServer) noSupport(sql string, err *pgErr) {
	switch err.code {
	case "42601", "0A000", "42883":
		if srv.unsupported == "" {
			srv.unsupported = err.msg + ": " + sql
		}
	}
}

func (s *pgSess) status() byte {
	switch {
	case s.tx == nil:
		return 'I'
	case s.tx.failed:
		return 'E'
	}
	return 'T'
}

func (s *pgSess) fail(o *pgBuf, e *pgErr) {
	if s.tx != nil {
		s.tx.failed = true
	}
	b := []byte("SERROR\x00C" + e.code + "\x00M" + e.msg + "\x00")
	if e.table != "" {
		b = append(b, []byte("t"+e.table+"\x00")...)
	}
	if e.constraint != "" {
		b = append(b, []byte("n"+e.constraint+"\x00")...)
	}
	o.msg('E', append(b, 0))
}

func (s *pgSess) simple(o *pgBuf, sql string) (drop bool) {
	for _, q := range pgSplit(sql) {
		st, err := pgParse(q)
		if err != nil {
			s.srv.noSupport(q, err)
			s.fail(o, err)
			return
		}
		if st.kind == "empty" {
			o.msg('I', nil)
			continue
		}
		ok, d := s.exec(o, st, q, nil, nil, true)
		if d {
			return true
		}
		if !ok {
			return
		}
	}
	return
}

// pgSplit splits a simple query into statements (bodies of functions stay whole).
func pgSplit(sql string) []string {
	if strings.Contains(sql, "$$") {
		return []string{sql}
	}
	var r []string
	for _, q := range strings.Split(sql, ";") {
		if strings.TrimSpace(q) != "" {
			r = append(r, q)
		}
	}
	if len(r) == 0 {
		r = []string{""}
	}
	return r
}

func pgTypeOid(t string) int32 {
	switch t {
	case "int4":
		return 23
	case "int8":
		return 20
	case "bool":
		return 16
	case "void":
		return 2278
	}
	return 25
}

func (s *pgSess) describe(o *pgBuf, st *pgStmt) {
	items := st.items
	if st.kind != "select" {
		items = st.returning
	}
	if len(items) == 0 {
		o.msg('n', nil)
		return
	}
	names, types := st.outCols(s.db.tables[st.table], items)
	b := int16b(int16(len(names)))
	for i := range names {
		b = append(b, names[i]...)
		b = append(b, 0)
		b = append(b, int32b(0)...)
		b = append(b, int16b(0)...)
		b = append(b, int32b(pgTypeOid(types[i]))...)
		b = append(b, int16b(-1)...)
		b = append(b, int32b(-1)...)
		b = append(b, int16b(0)...)
	}
	o.msg('T', b)
}

// exec runs one statement and writes its rows and tag.
func (s *pgSess) exec(o *pgBuf, st *pgStmt, sql string, params []interface{}, fmts []byte, describe bool) (ok, drop bool) {
	if s.srv.log {
		s.srv.x.Logf("  pg %d: %s %v", s.pid, strings.Join(strings.Fields(sql), " "), params)
	}
	after := false
	var half *pgErr // fail after half of the rows
	if s.srv.fault != nil {
		if e := s.srv.fault(s, sql); e != nil {
			switch e.code {
			case "drop":
				return false, true
			case "dropafter":
				after = true
			case "rows", "droprows":
				half = e
			default:
				if st.kind == "commit" || st.kind == "rollback" {
					s.endTx(false)
				}
				s.fail(o, e)
				if s.tx != nil && !s.tx.explicit {
					s.endTx(false)
				}
				return false, false
			}
		}
	}
	switch st.kind {
	case "begin":
		if s.tx == nil {
			s.tx = &pgTx{s: s, snap: -1, done: make(chan struct{}), explicit: true}
		}
		s.tx.rr = st.isolation == "rr"
		o.msg('C', []byte("BEGIN\x00"))
		return true, after
	case "commit":
		tag := "COMMIT\x00"
		if s.tx != nil && s.tx.failed {
			tag = "ROLLBACK\x00"
			s.endTx(false)
		} else {
			s.endTx(true)
		}
		o.msg('C', []byte(tag))
		return true, after
	case "rollback":
		s.endTx(false)
		o.msg('C', []byte("ROLLBACK\x00"))
		return true, after
	case "empty":
		o.msg('I', nil)
		return true, after
	}
	if s.tx != nil && s.tx.failed {
		s.fail(o, pgErrf("25P02", "current transaction is aborted, commands ignored until end of transaction block"))
		return false, false
	}
	implicit := s.tx == nil
	if implicit {
		s.tx = &pgTx{s: s, snap: -1, done: make(chan struct{})}
	}
	if st.kind == "set" && st.isolation == "rr" {
		s.tx.rr = true
	}
	var err *pgErr
	var res *pgResult
	select {
	case <-s.cancelled:
		err = pgErrf("57014", "canceling statement due to user request")
	default:
		res, err = s.run(st, params)
	}
	if err != nil {
		s.srv.noSupport(sql, err)
		s.fail(o, err)
		if implicit {
			s.endTx(false)
		}
		return false, after
	}
	if implicit {
		s.endTx(true)
	}
	if describe && (st.kind == "select" || len(st.returning) > 0) {
		s.describe(o, st)
	}
	for k, r := range res.rows {
		if half != nil && k >= len(res.rows)/2 {
			break
		}
		b := int16b(int16(len(r)))
		var types []string
		if len(fmts) > 0 {
			items := st.items
			if st.kind != "select" {
				items = st.returning
			}
			_, types = st.outCols(s.db.tables[st.table], items)
		}
		for i, v := range r {
			if v == nil {
				b = append(b, int32b(-1)...)
				continue
			}
			bin := len(fmts) == 1 && fmts[0] == 1 || len(fmts) > 1 && fmts[i] == 1
			if n, ok := v.(int64); ok && bin {
				if types[i] == "int4" {
					b = append(b, int32b(4)...)
					b = append(b, int32b(int32(n))...)
				} else {
					b = append(b, int32b(8)...)
					b = binary.BigEndian.AppendUint64(b, uint64(n))
				}
				continue
			}
			t := pgText(v)
			b = append(b, int32b(int32(len(t)))...)
			b = append(b, t...)
		}
		o.msg('D', b)
	}
	if half != nil {
		if half.code == "droprows" {
			_, _ = s.c.Write(o.b)
			return false, true
		}
		s.fail(o, pgErrf("XX000", "injected failure"))
		return false, false
	}
	o.msg('C', append([]byte(res.tag), 0))
	return true, after
}

// notify delivers a notification when the session is idle.
func (s *pgSess) notify(pid int32, channel, payload string) {
	var o pgBuf
	b := int32b(pid)
	b = append(b, channel...)
	b = append(b, 0)
	b = append(b, payload...)
	o.msg('A', append(b, 0))
	if s.busy {
		s.pending = append(s.pending, o.b)
		return
	}
	_, _ = s.c.Write(o.b)
}

type pgBuf struct{ b []byte }

func (o *pgBuf) msg(t byte, body []byte) {
	o.b = append(o.b, t)
	o.b = append(o.b, int32b(int32(len(body)+4))...)
	o.b = append(o.b, body...)
}

func int32b(n int32) []byte {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], uint32(n))
	return b[:]
}

func int16b(n int16) []byte {
	var b [2]byte
	binary.BigEndian.PutUint16(b[:], uint16(n))
	return b[:]
}

func pgCstr(b []byte) (string, []byte) {
	for i, c := range b {
		if c == 0 {
			return string(b[:i]), b[i+1:]
		}
	}
	return string(b), nil
}
