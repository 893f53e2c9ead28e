package sim

import (
	"errors"
	"io"
	"os"
	"path"
	"syscall"
	"time"

	"github.com/syndtr/goleveldb/leveldb/storage"
)

// The simulated disk under goleveldb. A process kill keeps everything that was
// written; a power loss keeps what was synced and a prefix of the later
// operations, the last of which may be torn.

type diskOp struct {
	Kind byte // 'c' create, 'a' append, 'd' remove, 'm' set meta, 'r' rename
	FD   storage.FileDesc
	FD2  storage.FileDesc
	Data []byte
}

// Disk is one database directory.
type Disk struct {
	Path    string
	Files   map[storage.FileDesc][]byte // durable image
	Meta    storage.FileDesc
	HasMeta bool
	Pending []diskOp // not yet durable
	Bytes   int64

	cur    map[storage.FileDesc][]byte
	meta   storage.FileDesc
	hmeta  bool
	locked bool
	opened bool
}

// DiskFault is a scheduled disk failure.
type DiskFault struct {
	Kind  string // write, sync, read, full, create, short
	Path  string // substring of the directory name; empty for both
	After int    // number of matching operations that still succeed
	Count int    // how many then fail (negative: all until healed)
	Prob  int    // of those, one in Prob only
}

func (d *Disk) apply(files map[storage.FileDesc][]byte, op diskOp, meta *storage.FileDesc, has *bool) {
	switch op.Kind {
	case 'c':
		files[op.FD] = nil
	case 'a':
		files[op.FD] = append(files[op.FD], op.Data...)
	case 'd':
		delete(files, op.FD)
	case 'r':
		files[op.FD2] = files[op.FD]
		delete(files, op.FD)
	case 'm':
		*meta = op.FD
		*has = true
	}
}

func (d *Disk) load() {
	d.cur = make(map[storage.FileDesc][]byte)
	for k, v := range d.Files {
		d.cur[k] = append([]byte(nil), v...)
	}
	d.meta, d.hmeta = d.Meta, d.HasMeta
	for _, op := range d.Pending {
		d.apply(d.cur, op, &d.meta, &d.hmeta)
	}
	d.locked = false
}

func (d *Disk) flush() {
	for _, op := range d.Pending {
		d.apply(d.Files, op, &d.Meta, &d.HasMeta)
	}
	d.Pending = nil
}

// powerLoss drops a suffix of the unsynced operations.
func (d *Disk) powerLoss(r *rng) {
	n := len(d.Pending)
	keep := 0
	if n > 0 {
		switch r.n(4) {
		case 0:
			keep = n
		case 1:
			keep = n - r.n(min(n, 6)+1)
		case 2:
			keep = r.n(n + 1)
		default:
			keep = n - r.n(min(n, 30)+1)
		}
	}
	dropped := n - keep
	rest := d.Pending[keep:]
	d.Pending = d.Pending[:keep]
	if len(rest) > 0 && rest[0].Kind == 'a' && len(rest[0].Data) > 0 && r.p(1, 2) {
		t := rest[0]
		t.Data = t.Data[:r.n(len(t.Data))]
		if len(t.Data) > 0 {
			d.Pending = append(d.Pending, t)
			W.Faults["disk_torn_write"]++
		}
	}
	if dropped > 0 {
		W.Faults["disk_lost_unsynced_ops"] += int64(dropped)
	}
	d.flush()
}

// mutate runs before every mutating operation; it may crash the process or fail.
func (d *Disk) mutate(op diskOp) error {
	W.DiskOps++
	if W.CrashAtOp > 0 {
		W.CrashAtOp--
		if W.CrashAtOp == 0 {
			k := W.CrashKind
			W.Faults["crash_at_disk_op"]++
			W.restart(k, W.CrashDelay)
		}
	}
	kind := "write"
	if op.Kind == 'c' {
		kind = "create"
	}
	if f := d.fault(kind); f != "" {
		if f == "short" && len(op.Data) > 1 {
			op.Data = op.Data[:len(op.Data)/2]
			d.Pending = append(d.Pending, op)
			d.apply(d.cur, op, &d.meta, &d.hmeta)
		}
		if f == "full" {
			return &os.PathError{Op: "write", Path: d.name(), Err: syscall.ENOSPC}
		}
		return &os.PathError{Op: "write", Path: d.name(), Err: syscall.EIO}
	}
	d.Pending = append(d.Pending, op)
	d.apply(d.cur, op, &d.meta, &d.hmeta)
	d.Bytes += int64(len(op.Data))
	if W.DiskDelay > 0 {
		W.Faults["disk_slow"]++
		t := int64(W.diskRng.u64() % uint64(W.DiskDelay))
		leave()
		time.Sleep(time.Duration(t))
		enter()
	}
	return nil
}

func (d *Disk) fault(kind string) string {
	for i := range W.DiskFaults {
		f := &W.DiskFaults[i]
		k := f.Kind
		if k == "full" || k == "short" {
			k = "write"
		}
		if f.Kind == "full" && kind == "create" {
			k = "create"
		}
		if k != kind || f.Count == 0 || (f.Path != "" && path.Base(d.Path) != f.Path) {
			continue
		}
		if f.After > 0 {
			f.After--
			continue
		}
		if f.Prob > 1 && W.diskRng.n(f.Prob) != 0 {
			continue
		}
		if f.Count > 0 {
			f.Count--
		}
		W.Faults["disk_"+f.Kind+"_error"]++
		W.DiskErrs++
		W.DiskErrAny = true
		if f.Kind == "read" {
			W.ReadErrAt = now()
		} else {
			W.WriteErr = true
		}
		W.ev("disk fault %s on %s", f.Kind, path.Base(d.Path))
		return f.Kind
	}
	return ""
}

type simStorage struct {
	d      *Disk
	closed bool
}

type simLock struct{ s *simStorage }

func (l simLock) Unlock() { enter(); l.s.d.locked = false; leave() }

func simOpenStorage(p string, _ bool) (storage.Storage, error) {
	enter()
	defer leave()
	d := W.Disks[p]
	if d == nil {
		d = &Disk{Path: p, Files: map[storage.FileDesc][]byte{}}
		W.Disks[p] = d
	}
	if !d.opened {
		d.load()
		d.opened = true
	}
	if l := W.config().Lock; l != "" && path.Base(p) == l {
		W.Faults["disk_locked"]++
		return nil, storage.ErrLocked
	}
	if f := d.fault("open"); f != "" {
		return nil, &os.PathError{Op: "open", Path: "db/" + path.Base(p), Err: syscall.EIO}
	}
	return &simStorage{d: d}, nil
}

func (s *simStorage) Lock() (storage.Locker, error) {
	enter()
	defer leave()
	if s.closed {
		return nil, storage.ErrClosed
	}
	if s.d.locked {
		return nil, storage.ErrLocked
	}
	s.d.locked = true
	return simLock{s}, nil
}

func (s *simStorage) Log(string) {}

func (s *simStorage) SetMeta(fd storage.FileDesc) error {
	enter()
	defer leave()
	if s.closed {
		return storage.ErrClosed
	}
	if err := s.d.mutate(diskOp{Kind: 'm', FD: fd}); err != nil {
		return err
	}
	s.d.flush()
	return nil
}

func (s *simStorage) GetMeta() (storage.FileDesc, error) {
	enter()
	defer leave()
	if s.closed {
		return storage.FileDesc{}, storage.ErrClosed
	}
	if !s.d.hmeta {
		return storage.FileDesc{}, os.ErrNotExist
	}
	if _, ok := s.d.cur[s.d.meta]; !ok {
		return storage.FileDesc{}, os.ErrNotExist
	}
	return s.d.meta, nil
}

func (s *simStorage) List(ft storage.FileType) ([]storage.FileDesc, error) {
	enter()
	defer leave()
	if s.closed {
		return nil, storage.ErrClosed
	}
	var r []storage.FileDesc
	for fd := range s.d.cur {
		if fd.Type&ft != 0 {
			r = append(r, fd)
		}
	}
	for i := range r {
		for j := i; j > 0 && (r[j].Num < r[j-1].Num || r[j].Num == r[j-1].Num && r[j].Type < r[j-1].Type); j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r, nil
}

type simReader struct {
	s      *simStorage
	fd     storage.FileDesc
	off    int64
	closed bool
}

func (r *simReader) data() ([]byte, error) {
	if r.closed {
		return nil, storage.ErrClosed
	}
	if W.ReadDelay > 0 {
		W.Faults["disk_slow_read"]++
		t := W.diskRng.u64() % uint64(W.ReadDelay)
		leave()
		time.Sleep(time.Duration(t))
		enter()
		if r.closed {
			return nil, storage.ErrClosed
		}
	}
	if f := r.s.d.fault("read"); f != "" {
		return nil, &os.PathError{Op: "read", Path: r.s.d.name(), Err: syscall.EIO}
	}
	return r.s.d.cur[r.fd], nil
}

func (r *simReader) Read(b []byte) (int, error) {
	enter()
	defer leave()
	d, err := r.data()
	if err != nil {
		return 0, err
	}
	if r.off >= int64(len(d)) {
		return 0, io.EOF
	}
	n := copy(b, d[r.off:])
	r.off += int64(n)
	return n, nil
}

func (r *simReader) ReadAt(b []byte, off int64) (int, error) {
	enter()
	defer leave()
	d, err := r.data()
	if err != nil {
		return 0, err
	}
	if off >= int64(len(d)) {
		return 0, io.EOF
	}
	n := copy(b, d[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (r *simReader) Seek(off int64, whence int) (int64, error) {
	enter()
	defer leave()
	switch whence {
	case io.SeekStart:
		r.off = off
	case io.SeekCurrent:
		r.off += off
	case io.SeekEnd:
		r.off = int64(len(r.s.d.cur[r.fd])) + off
	}
	if r.off < 0 {
		return 0, errors.New("negative offset")
	}
	return r.off, nil
}

func (r *simReader) Close() error {
	enter()
	defer leave()
	if r.closed {
		return storage.ErrClosed
	}
	r.closed = true
	return nil
}

func (s *simStorage) Open(fd storage.FileDesc) (storage.Reader, error) {
	enter()
	defer leave()
	if s.closed {
		return nil, storage.ErrClosed
	}
	if _, ok := s.d.cur[fd]; !ok {
		return nil, os.ErrNotExist
	}
	return &simReader{s: s, fd: fd}, nil
}

type simWriter struct {
	s      *simStorage
	fd     storage.FileDesc
	closed bool
}

func (w *simWriter) Write(b []byte) (int, error) {
	enter()
	defer leave()
	if w.closed {
		return 0, storage.ErrClosed
	}
	if err := w.s.d.mutate(diskOp{Kind: 'a', FD: w.fd, Data: append([]byte(nil), b...)}); err != nil {
		return 0, err
	}
	return len(b), nil
}

func (w *simWriter) Sync() error {
	enter()
	defer leave()
	if w.closed {
		return storage.ErrClosed
	}
	if f := w.s.d.fault("sync"); f != "" {
		return &os.PathError{Op: "sync", Path: w.s.d.name(), Err: syscall.EIO}
	}
	w.s.d.flush()
	W.Probes["disk_sync"]++
	return nil
}

func (w *simWriter) Close() error {
	enter()
	defer leave()
	if w.closed {
		return storage.ErrClosed
	}
	w.closed = true
	return nil
}

func (s *simStorage) Create(fd storage.FileDesc) (storage.Writer, error) {
	enter()
	defer leave()
	if s.closed {
		return nil, storage.ErrClosed
	}
	if err := s.d.mutate(diskOp{Kind: 'c', FD: fd}); err != nil {
		return nil, err
	}
	return &simWriter{s: s, fd: fd}, nil
}

func (s *simStorage) Remove(fd storage.FileDesc) error {
	enter()
	defer leave()
	if s.closed {
		return storage.ErrClosed
	}
	if _, ok := s.d.cur[fd]; !ok {
		return os.ErrNotExist
	}
	return s.d.mutate(diskOp{Kind: 'd', FD: fd})
}

func (s *simStorage) Rename(a, b storage.FileDesc) error {
	enter()
	defer leave()
	if s.closed {
		return storage.ErrClosed
	}
	if _, ok := s.d.cur[a]; !ok {
		return os.ErrNotExist
	}
	return s.d.mutate(diskOp{Kind: 'r', FD: a, FD2: b})
}

func (s *simStorage) Close() error {
	enter()
	defer leave()
	if s.closed {
		return storage.ErrClosed
	}
	s.closed = true
	return nil
}

// name is what errors call the database: nothing may depend on where the run keeps
// its files.
func (d *Disk) name() string { return "db/" + path.Base(d.Path) }
