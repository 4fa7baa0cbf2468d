package h

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"sort"

	"github.com/syndtr/goleveldb/leveldb/storage"
)

// Disk is the in-memory device under goleveldb. It optionally journals every
// operation (for crash enumeration) and can fail one operation (for fault
// enumeration). It contains no synchronization: controlled executions run one
// goroutine at a time and the device has no scheduling points.
type Disk struct {
	files   map[storage.FileDesc]*dfile
	meta    storage.FileDesc
	hasMeta bool
	locked  bool
	journal bool
	ops     []dop
	// fault injection: the FailAt-th operation (1-based) of the armed kinds fails.
	armed    bool
	count    int
	failAt   int
	failKind byte // 0: any
	torn     bool // a failing write keeps half of its bytes
	failed   string
	sticky   bool
	lostMeta bool // a crash lost bytes of the current manifest that was never synced
	opening  bool // and happened while the store was being opened
}

type dfile struct {
	data   []byte
	synced int
}

type dop struct {
	kind byte // 'c' create, 'w' write, 's' sync, 'r' remove, 'n' rename, 'm' meta, 'k' mark, 'O' the store is being opened, 'o' it is open
	fd   storage.FileDesc
	to   storage.FileDesc
	data []byte
	mark int
}

var errInjected = errors.New("injected storage fault")

var diskTrace = os.Getenv("MC_DISK") != ""

var disks = map[string]*Disk{}

func init() {
	storage.VerifOpen = func(path string, readOnly bool) (storage.Storage, error) {
		d := disks[path]
		if d == nil {
			return nil, fmt.Errorf("no disk %q", path)
		}
		return &diskStorage{d: d}, nil
	}
}

// journalNew makes new devices keep a journal from the beginning.
var journalNew bool

func newDisk() *Disk { return &Disk{files: map[storage.FileDesc]*dfile{}, journal: journalNew} }

// fault reports whether the current operation has to fail.
func (d *Disk) fault(kind byte, fd storage.FileDesc) bool {
	if !d.armed {
		return false
	}
	d.count++
	if diskTrace {
		fmt.Fprintf(os.Stderr, "   device %d: %c %v\n", d.count, kind, fd)
	}
	if d.sticky && d.failed != "" {
		return true
	}
	if d.count == d.failAt {
		d.failed = fmt.Sprintf("%c %v", kind, fd)
		return true
	}
	return false
}

func (d *Disk) log(op dop) {
	if d.journal {
		d.ops = append(d.ops, op)
	}
}

type diskStorage struct {
	d      *Disk
	closed bool
}

type diskLock struct{ d *Disk }

func (l diskLock) Unlock() { l.d.locked = false }

func (s *diskStorage) Lock() (storage.Locker, error) {
	if s.d.locked {
		return nil, storage.ErrLocked
	}
	s.d.locked = true
	return diskLock{s.d}, nil
}

func (s *diskStorage) Log(string) {}

func (s *diskStorage) SetMeta(fd storage.FileDesc) error {
	if s.d.fault('m', fd) {
		return errInjected
	}
	s.d.meta, s.d.hasMeta = fd, true
	s.d.log(dop{kind: 'm', fd: fd})
	return nil
}

func (s *diskStorage) GetMeta() (storage.FileDesc, error) {
	if s.d.fault('g', storage.FileDesc{}) {
		return storage.FileDesc{}, errInjected
	}
	if !s.d.hasMeta {
		return storage.FileDesc{}, os.ErrNotExist
	}
	if s.d.files[s.d.meta] == nil {
		return storage.FileDesc{}, os.ErrNotExist
	}
	return s.d.meta, nil
}

func (s *diskStorage) List(ft storage.FileType) ([]storage.FileDesc, error) {
	if s.d.fault('l', storage.FileDesc{}) {
		return nil, errInjected
	}
	var r []storage.FileDesc
	for fd := range s.d.files {
		if fd.Type&ft != 0 {
			r = append(r, fd)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].Num != r[j].Num {
			return r[i].Num < r[j].Num
		}
		return r[i].Type < r[j].Type
	})
	return r, nil
}

type diskReader struct {
	*bytes.Reader
	d  *Disk
	fd storage.FileDesc
}

func (r *diskReader) Read(p []byte) (int, error) {
	if r.d.fault('R', r.fd) {
		return 0, errInjected
	}
	return r.Reader.Read(p)
}

func (r *diskReader) ReadAt(p []byte, off int64) (int, error) {
	if r.d.fault('R', r.fd) {
		return 0, errInjected
	}
	return r.Reader.ReadAt(p, off)
}

func (r *diskReader) Close() error { return nil }

func (s *diskStorage) Open(fd storage.FileDesc) (storage.Reader, error) {
	if s.closed {
		return nil, storage.ErrClosed
	}
	if s.d.fault('o', fd) {
		return nil, errInjected
	}
	f := s.d.files[fd]
	if f == nil {
		return nil, os.ErrNotExist
	}
	return &diskReader{bytes.NewReader(f.data), s.d, fd}, nil
}

type diskWriter struct {
	d  *Disk
	fd storage.FileDesc
	f  *dfile
}

func (w *diskWriter) Write(p []byte) (int, error) {
	if w.d.fault('w', w.fd) {
		if w.d.torn {
			n := len(p) / 2
			w.f.data = append(w.f.data, p[:n]...)
			return n, errInjected
		}
		return 0, errInjected
	}
	w.f.data = append(w.f.data, p...)
	if w.d.journal {
		w.d.log(dop{kind: 'w', fd: w.fd, data: append([]byte(nil), p...)})
	}
	return len(p), nil
}

func (w *diskWriter) Sync() error {
	if w.d.fault('s', w.fd) {
		return errInjected
	}
	w.f.synced = len(w.f.data)
	w.d.log(dop{kind: 's', fd: w.fd})
	return nil
}

func (w *diskWriter) Close() error { return nil }

func (s *diskStorage) Create(fd storage.FileDesc) (storage.Writer, error) {
	if s.closed {
		return nil, storage.ErrClosed
	}
	if s.d.fault('c', fd) {
		return nil, errInjected
	}
	f := &dfile{}
	s.d.files[fd] = f
	s.d.log(dop{kind: 'c', fd: fd})
	return &diskWriter{s.d, fd, f}, nil
}

func (s *diskStorage) Remove(fd storage.FileDesc) error {
	if s.d.fault('r', fd) {
		return errInjected
	}
	if s.d.files[fd] == nil {
		return os.ErrNotExist
	}
	delete(s.d.files, fd)
	s.d.log(dop{kind: 'r', fd: fd})
	return nil
}

func (s *diskStorage) Rename(o, n storage.FileDesc) error {
	if s.d.fault('n', o) {
		return errInjected
	}
	f := s.d.files[o]
	if f == nil {
		return os.ErrNotExist
	}
	delete(s.d.files, o)
	s.d.files[n] = f
	s.d.log(dop{kind: 'n', fd: o, to: n})
	return nil
}

func (s *diskStorage) Close() error { s.closed = true; return nil }

// crashImage rebuilds the device after a crash just before operation n: files
// keep their synced bytes plus a prefix of the unsynced ones. The tail policy
// says how much of the unsynced tail of each file survives.
func crashImage(ops []dop, n int, tail func(fd storage.FileDesc, unsynced []byte) int) *Disk {
	d := newDisk()
	for _, op := range ops[:n] {
		switch op.kind {
		case 'c':
			d.files[op.fd] = &dfile{}
		case 'w':
			f := d.files[op.fd]
			if f != nil {
				f.data = append(f.data, op.data...)
			}
		case 's':
			if f := d.files[op.fd]; f != nil {
				f.synced = len(f.data)
			}
		case 'r':
			delete(d.files, op.fd)
		case 'n':
			d.files[op.to] = d.files[op.fd]
			delete(d.files, op.fd)
		case 'm':
			d.meta, d.hasMeta = op.fd, true
		case 'O':
			d.opening = true
		case 'o':
			d.opening = false
		}
	}
	if tail != nil {
		for fd, f := range d.files {
			k := tail(fd, f.data[f.synced:])
			if d.hasMeta && fd == d.meta && f.synced == 0 && k < len(f.data) {
				d.lostMeta = true
			}
			f.data = f.data[:f.synced+k]
		}
	}
	for _, f := range d.files {
		f.synced = len(f.data)
	}
	return d
}
