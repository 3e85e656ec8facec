// Package sos shadows os: files are real files in the run's scratch directory,
// but every operation passes the fault engine first.
package sos

import (
	"bytes"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"MODULE/internal/verifsim/simrt"
	"MODULE/internal/verifsim/sio"
)

// Process state set by the harness.
var (
	Args   = []string{"setup"}
	OutBuf bytes.Buffer
	ErrBuf bytes.Buffer
	Stdin  = &File{name: "/dev/stdin", std: &bytes.Buffer{}}
	Stdout = &File{name: "/dev/stdout", std: &OutBuf}
	Stderr = &File{name: "/dev/stderr", std: &ErrBuf}
)

// Exit ends the simulated process.
func Exit(code int) { simrt.Exit(code) }

// File is an open file of the simulated process.
type File struct {
	f      *os.File
	name   string
	std    *bytes.Buffer
	pos    int64
	write  bool
	append bool
	closed bool
}

func (f *File) nilErr() error {
	if f == nil {
		return os.ErrInvalid
	}
	return nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	e := sio.E
	if e == nil {
		f, err := os.OpenFile(name, flag, perm)
		if err != nil {
			return nil, err
		}
		return &File{f: f, name: name}, nil
	}
	kind := "open"
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) != 0 {
		kind = "create"
	}
	e.Forget()
	defer e.Forget()
	c := sio.Canon(name)
	if flt := e.Begin(kind, c); flt != nil {
		switch flt.Act {
		case "crash", "power":
			// Half of the crashes come right after the operation.
			if flt.Arg%2 == 1 {
				if f, err := os.OpenFile(name, flag, perm); err == nil {
					f.Close()
					e.Written[c] = e.Written[c] || kind == "create"
				}
			}
			e.Note(kind, c, 0, flt.Act)
			e.Die(flt)
		default:
			e.Hit(kind + "-error")
			e.Note(kind, c, 0, "err")
			en := sio.Errno(kind, flt)
			if kind == "create" && flt.Act == "full" {
				en = syscall.ENOSPC
			}
			return nil, sio.Err("open", name, en)
		}
	}
	if kind == "create" {
		_, err := os.Stat(name)
		if err != nil || flag&os.O_TRUNC != 0 {
			e.Written[c] = true
		}
	}
	f, err := os.OpenFile(name, flag, perm)
	e.Forget()
	e.Note(kind, c, flag, "")
	if err != nil {
		return nil, err
	}
	c = sio.Canon(name)
	e.Opened[c] = true
	fl := &File{f: f, name: name, write: kind == "create", append: flag&os.O_APPEND != 0}
	if kind == "create" {
		e.TrackWrite(name, flag&os.O_TRUNC != 0)
	}
	return fl, nil
}

func (f *File) canon() string { return sio.Canon(f.name) }

func (f *File) Read(p []byte) (int, error) {
	if err := f.nilErr(); err != nil {
		return 0, err
	}
	if f.std != nil {
		return 0, io.EOF
	}
	e := sio.E
	if e == nil {
		return f.f.Read(p)
	}
	c := f.canon()
	if flt := e.Begin("read", c); flt != nil {
		e.Note("read", c, len(p), flt.Act)
		switch flt.Act {
		case "crash", "power":
			e.Die(flt)
		case "short":
			if len(p) > 1 {
				e.Hit("short-read")
				p = p[:1+int(flt.Arg%uint64(len(p)-1))]
			}
		default:
			e.Hit("read-error")
			return 0, sio.Err("read", f.name, sio.Errno("read", flt))
		}
	}
	p = p[:e.Short(len(p))]
	n, err := f.f.Read(p)
	e.Cover(f.name, f.pos, n)
	f.pos += int64(n)
	e.Note("read", c, n, "")
	return n, err
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if err := f.nilErr(); err != nil {
		return 0, err
	}
	e := sio.E
	if e == nil || f.std != nil {
		return f.f.ReadAt(p, off)
	}
	c := f.canon()
	if flt := e.Begin("read", c); flt != nil {
		e.Note("read", c, len(p), flt.Act)
		switch flt.Act {
		case "crash", "power":
			e.Die(flt)
		case "short": // os.File.ReadAt retries short reads itself
		default:
			e.Hit("read-error")
			return 0, sio.Err("read", f.name, sio.Errno("read", flt))
		}
	}
	n, err := f.f.ReadAt(p, off)
	e.Cover(f.name, off, n)
	e.Note("readat", c, n, "")
	return n, err
}

func (f *File) Write(p []byte) (int, error) {
	if err := f.nilErr(); err != nil {
		return 0, err
	}
	if f.std != nil {
		simrt.CheckAlive()
		return f.std.Write(p)
	}
	e := sio.E
	if e == nil {
		return f.f.Write(p)
	}
	c := f.canon()
	flt := e.Begin("write", c)
	if flt == nil && e.Full() {
		e.Note("write", c, 0, "full")
		return 0, sio.Err("write", f.name, syscall.ENOSPC)
	}
	if flt != nil && !f.closed {
		e.Note("write", c, len(p), flt.Act)
		k := 0
		if len(p) > 0 {
			k = int(flt.Arg % uint64(len(p)))
		}
		switch flt.Act {
		case "crash", "power":
			f.put(p[:k])
			e.Die(flt)
		case "full":
			e.SetFull()
			e.Hit("disk-full")
			n := f.put(p[:k])
			return n, sio.Err("write", f.name, syscall.ENOSPC)
		case "short":
			e.Hit("short-write")
			n := f.put(p[:k])
			return n, sio.Err("write", f.name, sio.Errno("write", flt))
		default:
			e.Hit("write-error")
			return 0, sio.Err("write", f.name, sio.Errno("write", flt))
		}
	}
	n, err := f.f.Write(p)
	f.wrote(p[:n])
	e.Note("write", c, n, "")
	return n, err
}

// put writes bytes really.
func (f *File) put(p []byte) int {
	n, _ := f.f.Write(p)
	f.wrote(p[:n])
	return n
}

func (f *File) wrote(p []byte) {
	e := sio.E
	if len(p) == 0 {
		return
	}
	e.Written[f.canon()] = true
	if f.append {
		if fi, err := f.f.Stat(); err == nil {
			f.pos = fi.Size() - int64(len(p))
		}
	}
	e.Wrote(f.name, f.pos, p)
	f.pos += int64(len(p))
}

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if err := f.nilErr(); err != nil {
		return 0, err
	}
	e := sio.E
	if e == nil || f.std != nil {
		return f.f.WriteAt(p, off)
	}
	c := f.canon()
	if flt := e.Begin("write", c); flt != nil {
		e.Note("write", c, len(p), flt.Act)
		switch flt.Act {
		case "crash", "power":
			e.Die(flt)
		default:
			e.Hit("write-error")
			return 0, sio.Err("write", f.name, sio.Errno("write", flt))
		}
	}
	n, err := f.f.WriteAt(p, off)
	e.Written[c] = true
	e.Wrote(f.name, off, p[:n])
	e.Note("writeat", c, n, "")
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// ReadFrom and WriteTo keep the generic paths, so that every byte passes Read and Write.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.nilErr(); err != nil {
		return 0, err
	}
	e := sio.E
	if e == nil || f.std != nil {
		if f.std != nil {
			return 0, sio.Err("seek", f.name, syscall.ESPIPE)
		}
		return f.f.Seek(off, whence)
	}
	c := f.canon()
	if flt := e.Begin("seek", c); flt != nil {
		e.Note("seek", c, 0, flt.Act)
		switch flt.Act {
		case "crash", "power":
			e.Die(flt)
		default:
			e.Hit("seek-error")
			return 0, sio.Err("seek", f.name, sio.Errno("seek", flt))
		}
	}
	n, err := f.f.Seek(off, whence)
	if err == nil {
		f.pos = n
	}
	e.Note("seek", c, int(n), "")
	return n, err
}

func (f *File) Close() error {
	if err := f.nilErr(); err != nil {
		return err
	}
	if f.std != nil {
		return nil
	}
	e := sio.E
	if e == nil {
		return f.f.Close()
	}
	if simrt.Killed() {
		f.f.Close()
		return nil
	}
	if f.closed {
		return f.f.Close()
	}
	c := f.canon()
	kind := "close"
	if !f.write {
		kind = "rclose"
	}
	flt := e.Begin(kind, c)
	f.closed = true
	if flt != nil {
		e.Note(kind, c, 0, flt.Act)
		switch flt.Act {
		case "crash", "power":
			f.f.Close()
			e.Die(flt)
		default:
			f.f.Close()
			if f.write {
				// The error says that written data did not reach the disk.
				if e.LoseTail(f.name, flt.Arg) {
					e.Hit("close-error-lost-data")
				} else {
					e.Hit("close-error")
				}
			} else {
				e.Hit("close-error-read-only")
			}
			return sio.Err("close", f.name, sio.Errno("close", flt))
		}
	}
	e.Note(kind, c, 0, "")
	return f.f.Close()
}

func (f *File) Sync() error {
	if err := f.nilErr(); err != nil {
		return err
	}
	e := sio.E
	if e == nil || f.std != nil {
		return nil
	}
	c := f.canon()
	if flt := e.Begin("sync", c); flt != nil {
		e.Note("sync", c, 0, flt.Act)
		switch flt.Act {
		case "crash", "power":
			e.Die(flt)
		default:
			e.Hit("sync-error")
			e.LoseTail(f.name, flt.Arg)
			return sio.Err("sync", f.name, sio.Errno("sync", flt))
		}
	}
	e.Synced(f.name)
	e.Note("sync", c, 0, "")
	return nil
}

func (f *File) Truncate(n int64) error {
	if err := f.nilErr(); err != nil {
		return err
	}
	if e := sio.E; e != nil {
		c := f.canon()
		if flt := e.Begin("truncate", c); flt != nil {
			if flt.Act == "crash" || flt.Act == "power" {
				e.Die(flt)
			}
			return sio.Err("truncate", f.name, sio.Errno("write", flt))
		}
		e.Written[c] = true
	}
	err := f.f.Truncate(n)
	if e := sio.E; e != nil {
		e.TrackWrite(f.name, true)
		e.Synced(f.name)
	}
	return err
}

func (f *File) Name() string { return f.name }
func (f *File) Stat() (os.FileInfo, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	simrt.Y()
	return f.f.Stat()
}
func (f *File) Fd() uintptr                          { return f.f.Fd() }
func (f *File) Chmod(m os.FileMode) error            { return f.f.Chmod(m) }
func (f *File) Chdir() error                         { return f.f.Chdir() }
func (f *File) ReadDir(n int) ([]os.DirEntry, error) { return f.f.ReadDir(n) }
func (f *File) Readdir(n int) ([]os.FileInfo, error) { return f.f.Readdir(n) }
func (f *File) Readdirnames(n int) ([]string, error) { return f.f.Readdirnames(n) }
func (f *File) SetDeadline(time.Time) error          { return nil }
func (f *File) SetReadDeadline(time.Time) error      { return nil }
func (f *File) SetWriteDeadline(time.Time) error     { return nil }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(struct{ io.Reader }{f})
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func meta(op, name string) error {
	e := sio.E
	if e == nil {
		return nil
	}
	e.Forget()
	c := sio.Canon(name)
	if flt := e.Begin(op, c); flt != nil {
		e.Note(op, c, 0, flt.Act)
		switch flt.Act {
		case "crash", "power":
			e.Die(flt)
		default:
			e.Hit(op + "-error")
			return sio.Err(op, name, sio.Errno(op, flt))
		}
	}
	e.Note(op, c, 0, "")
	return nil
}

func Rename(from, to string) error {
	if err := meta("rename", from); err != nil {
		return err
	}
	if e := sio.E; e != nil {
		e.Written[sio.Canon(to)] = true
		e.Removed[sio.Canon(from)] = true
	}
	c := ""
	if sio.E != nil {
		c = sio.Canon(from)
	}
	err := os.Rename(from, to)
	if sio.E != nil {
		sio.E.Forget()
	}
	if err == nil && sio.E != nil {
		_ = c
		sio.E.Renamed(from, to)
	}
	return err
}

func Remove(name string) error {
	if err := meta("remove", name); err != nil {
		return err
	}
	if e := sio.E; e != nil {
		e.Removed[sio.Canon(name)] = true
		defer e.Forget()
	}
	return os.Remove(name)
}

func RemoveAll(name string) error {
	if err := meta("remove", name); err != nil {
		return err
	}
	if e := sio.E; e != nil {
		// Never recursive: the simulated process has only flat files.
		e.Removed[sio.Canon(name)] = true
		defer e.Forget()
		err := os.Remove(name)
		if os.IsNotExist(err) {
			err = nil
		}
		return err
	}
	return nil
}

func Truncate(name string, n int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

func Stat(name string) (os.FileInfo, error) {
	if err := meta("stat", name); err != nil {
		return nil, err
	}
	return os.Stat(name)
}
func Lstat(name string) (os.FileInfo, error) {
	if err := meta("stat", name); err != nil {
		return nil, err
	}
	return os.Lstat(name)
}

func ReadDir(name string) ([]os.DirEntry, error) {
	if err := meta("open", name); err != nil {
		return nil, err
	}
	return os.ReadDir(name)
}

var tempSeq int

// TempDir is the process's own directory, so that nothing leaves the run.
func TempDir() string { return "." }

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "."
	}
	for {
		tempSeq++
		n := strconv.Itoa(100000 + tempSeq)
		name := pattern + n
		if i := strings.LastIndex(pattern, "*"); i >= 0 {
			name = pattern[:i] + n + pattern[i+1:]
		}
		name = filepath.Join(dir, name)
		if _, err := os.Lstat(name); err == nil {
			continue
		}
		return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL|os.O_TRUNC, 0600)
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "."
	}
	tempSeq++
	name := filepath.Join(dir, strings.ReplaceAll(pattern, "*", "")+strconv.Itoa(100000+tempSeq))
	return name, os.Mkdir(name, 0700)
}

// Reset restores the per-process state.
func Reset() { tempSeq = 0; OutBuf.Reset(); ErrBuf.Reset() }

func Link(a, b string) error    { return sio.Err("link", a, syscall.EPERM) }
func Getpid() int               { return 4242 }
func Hostname() (string, error) { return "sim", nil }
func Pipe() (*File, *File, error) {
	return nil, nil, sio.Err("pipe", "", syscall.EMFILE)
}
func NewFile(fd uintptr, name string) *File { return nil }
func SameFile(a, b fs.FileInfo) bool        { return os.SameFile(a, b) }
