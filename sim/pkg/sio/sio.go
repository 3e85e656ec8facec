// Package sio is the fault engine under the simulated file system: it numbers
// every file operation of the running process, decides which of them fail and
// how, keeps what a crash would lose, and records what happened.
package sio

import (
	"errors"
	"hash/fnv"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"syscall"

	"MODULE/internal/verifsim/simrt"
)

// Fault is one injected fault.
type Fault struct {
	Op   int    `json:"op"`             // which command of the run (harness)
	Kind string `json:"kind"`           // operation kind: read write open create seek close sync any rng
	At   int    `json:"at"`             // the At-th operation of that kind, from 0
	Act  string `json:"act"`            // err short full drop crash power
	Arg  uint64 `json:"arg,omitempty"`  // detail (bytes kept, ...)
	File string `json:"file,omitempty"` // only operations on this file count
	Rep  bool   `json:"rep,omitempty"`  // persists
}

// Event is one file operation as it happened.
type Event struct {
	Kind, File string
	N          int
	Fault      string
}

type wrec struct {
	off  int64
	data []byte
}

// handleState is shared by all descriptors of one file opened for writing.
type fileState struct {
	path  string
	base  []byte // durable content
	log   []wrec // writes since
	fresh bool   // created by this process
}

// Engine is the state for one simulated process.
type Engine struct {
	Faults    []Fault
	Chunk     uint64 // 0: full reads; otherwise seed of legal short reads
	ChunkMax  int
	Counts    map[string]int // per kind
	FCounts   map[string]int // per kind + file
	Fired     map[string]int
	Events    uint64
	Hash      uint64
	Log       []Event
	KeepLog   bool
	Covered   map[string][][2]int64 // ranges read successfully
	Opened    map[string]bool       // opened (for reading or writing)
	Written   map[string]bool       // created, truncated or written
	Removed   map[string]bool
	files     map[string]*fileState
	canon     map[string]string
	full      bool
	crngs     uint64
	power     bool
	powerArg  uint64
	FaultHit  int
	DataReads int // reads begun
	LastData  int // number of the last one that gave data
	Frozen    bool
	Kept      map[string][]byte // all that was written to each file, if not nil
}

// E is the engine of the running process.
var E *Engine

// New makes an engine.
func New() *Engine {
	return &Engine{Counts: map[string]int{}, FCounts: map[string]int{}, Fired: map[string]int{}, Covered: map[string][][2]int64{},
		Opened: map[string]bool{}, Written: map[string]bool{}, Removed: map[string]bool{}, files: map[string]*fileState{}}
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Note adds to the event log hash.
func (e *Engine) Note(kind, file string, n int, fault string) {
	h := fnv.New64a()
	io.WriteString(h, kind)
	h.Write([]byte{0, byte(n), byte(n >> 8), byte(n >> 16)})
	io.WriteString(h, file)
	io.WriteString(h, fault)
	e.Hash = mix(e.Hash ^ h.Sum64())
	e.Events++
	if e.KeepLog && len(e.Log) < 100000 {
		e.Log = append(e.Log, Event{kind, file, n, fault})
	}
}

// Begin counts an operation and returns the fault to apply, if any.
func (e *Engine) Begin(kind, file string) *Fault {
	simrt.Y()
	simrt.CheckAlive()
	k := e.Counts[kind]
	a := e.Counts["any"]
	fk := e.FCounts[kind+":"+file]
	e.Counts[kind]++
	if kind != "rng" {
		e.Counts["any"]++
	}
	e.FCounts[kind+":"+file]++
	for i := range e.Faults {
		f := &e.Faults[i]
		var n int
		switch {
		case f.Kind == kind && f.File == "":
			n = k
		case f.Kind == kind && f.File == file:
			n = fk
		case f.Kind == "any" && kind != "rng" && f.File == "":
			n = a
		default:
			continue
		}
		if n == f.At || (f.Rep && n >= f.At) {
			return f
		}
	}
	return nil
}

// Hit records that a fault took effect.
func (e *Engine) Hit(what string) { e.Fired[what]++; e.FaultHit++ }

// Die ends the process at this point.
func (e *Engine) Die(f *Fault) {
	e.Hit(f.Act + "@" + f.Kind)
	if f.Act == "power" {
		e.power = true
		e.powerArg = f.Arg
	}
	simrt.Crash("crash")
}

// Canon is the name under which a file is known.
func Canon(name string) string {
	e := E
	if e == nil {
		return canon(name)
	}
	c, ok := e.canon[name]
	if !ok {
		c = canon(name)
		if e.canon == nil {
			e.canon = map[string]string{}
		}
		e.canon[name] = c
	}
	return c
}

// Forget is called where names may come to mean something else.
func (e *Engine) Forget() { e.canon = nil }

func canon(name string) string {
	if p, err := filepath.Abs(name); err == nil {
		if q, err := filepath.EvalSymlinks(p); err == nil {
			p = q
		}
		if wd, err := os.Getwd(); err == nil {
			if r, err := filepath.Rel(wd, p); err == nil {
				return r
			}
		}
		return p
	}
	return name
}

// TrackWrite registers a file opened for writing; base is its durable content.
func (e *Engine) TrackWrite(name string, trunc bool) {
	c := Canon(name)
	st := e.files[c]
	if st == nil {
		st = &fileState{path: c}
		e.files[c] = st
		if !trunc {
			st.base, _ = os.ReadFile(c)
		}
	} else if trunc {
		st.base, st.log = nil, nil
	}
}

// Wrote records written bytes.
func (e *Engine) Wrote(name string, off int64, data []byte) {
	if c := Canon(name); e.Kept != nil && len(e.Kept[c]) < 1<<20 {
		e.Kept[c] = append(e.Kept[c], data...)
	}
	if st := e.files[Canon(name)]; st != nil {
		st.log = append(st.log, wrec{off, append([]byte(nil), data...)})
	}
}

// Synced makes the file durable.
func (e *Engine) Synced(name string) {
	if st := e.files[Canon(name)]; st != nil {
		st.base, _ = os.ReadFile(st.path)
		st.log = nil
	}
}

// Renamed moves the tracking along.
func (e *Engine) Renamed(from, to string) {
	f, t := Canon(from), Canon(to)
	if st := e.files[f]; st != nil {
		delete(e.files, f)
		st.path = t
		e.files[t] = st
	}
}

func apply(base []byte, log []wrec) []byte {
	b := append([]byte(nil), base...)
	for _, w := range log {
		end := int(w.off) + len(w.data)
		if end > len(b) {
			b = append(b, make([]byte, end-len(b))...)
		}
		copy(b[w.off:], w.data)
	}
	return b
}

// LoseTail drops the last unsynced bytes of a file: what an error of close means.
func (e *Engine) LoseTail(name string, arg uint64) bool {
	st := e.files[Canon(name)]
	if st == nil || len(st.log) == 0 {
		return false
	}
	l := st.log[len(st.log)-1]
	keep := int(arg % uint64(len(l.data)))
	log := append(append([]wrec(nil), st.log[:len(st.log)-1]...), wrec{l.off, l.data[:keep]})
	os.WriteFile(st.path, apply(st.base, log), 0644)
	st.log = log
	return true
}

// AfterCrash applies a power loss: unsynced writes survive only in part.
func (e *Engine) AfterCrash() {
	if !e.power {
		return
	}
	var names []string
	for n := range e.files {
		names = append(names, n)
	}
	sort.Strings(names)
	r := e.powerArg
	for _, n := range names {
		st := e.files[n]
		if len(st.log) == 0 {
			continue
		}
		r = mix(r)
		switch r % 5 {
		case 0: // everything survives
		case 1: // nothing
			os.WriteFile(st.path, st.base, 0644)
			e.Fired["power-lost-all"]++
		case 2: // a prefix of the writes, the last one torn
			k := int(mix(r+1) % uint64(len(st.log)))
			log := append([]wrec(nil), st.log[:k+1]...)
			l := log[k]
			log[k] = wrec{l.off, l.data[:int(mix(r+2)%uint64(len(l.data)+1))]}
			os.WriteFile(st.path, apply(st.base, log), 0644)
			e.Fired["power-torn"]++
		case 3: // full length, but some writes left zeros
			b := apply(st.base, st.log)
			for i, w := range st.log {
				if mix(r+uint64(i))%2 == 0 {
					for j := range w.data {
						b[int(w.off)+j] = 0
					}
				}
			}
			os.WriteFile(st.path, b, 0644)
			e.Fired["power-zeros"]++
		case 4: // zero-filled tail
			b := apply(st.base, st.log)
			k := int(mix(r+1) % uint64(len(b)+1))
			for j := k; j < len(b); j++ {
				b[j] = 0
			}
			os.WriteFile(st.path, b, 0644)
			e.Fired["power-zero-tail"]++
		}
	}
}

// Cover notes that [off,off+n) of a file was read.
func (e *Engine) Cover(name string, off int64, n int) {
	e.DataReads = e.Counts["read"]
	if n <= 0 {
		return
	}
	e.LastData = e.Counts["read"] - 1
	c := Canon(name)
	l := e.Covered[c]
	if k := len(l); k > 0 && l[k-1][1] == off {
		l[k-1][1] += int64(n)
	} else {
		l = append(l, [2]int64{off, off + int64(n)})
	}
	e.Covered[c] = l
}

// FullyRead reports whether every byte of [0,size) of the file was read.
func (e *Engine) FullyRead(name string, size int64) bool {
	l := append([][2]int64(nil), e.Covered[Canon(name)]...)
	sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] })
	var end int64
	for _, r := range l {
		if r[0] > end {
			return false
		}
		if r[1] > end {
			end = r[1]
		}
	}
	return end >= size
}

// Short returns how many of n bytes a legal short read delivers.
func (e *Engine) Short(n int) int {
	if e.Chunk == 0 || n <= 1 {
		return n
	}
	e.crngs++
	r := mix(e.Chunk ^ e.crngs*0x9e3779b97f4a7c15)
	if r%4 == 0 {
		return n
	}
	max := e.ChunkMax
	if max <= 0 || max > n {
		max = n
	}
	k := 1 + int((r>>8)%uint64(max))
	if k < n {
		e.Fired["short-read"]++
	}
	return k
}

// Err makes the error of a failed operation.
// errnos are what a failing call may give: not every handler treats all alike.
var errnos = map[string][]syscall.Errno{
	"open":   {syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.ENOENT, syscall.ESTALE, syscall.EPERM, syscall.EINTR},
	"create": {syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.EROFS, syscall.ENOSPC, syscall.EDQUOT, syscall.EPERM, syscall.EINTR},
	"read":   {syscall.EIO, syscall.ESTALE, syscall.ETIMEDOUT, syscall.EACCES, syscall.EBADF, syscall.EINTR, syscall.EAGAIN},
	"write":  {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EFBIG, syscall.ETIMEDOUT, syscall.EPIPE, syscall.EINTR, syscall.EAGAIN},
	"close":  {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EBADF, syscall.EINTR},
	"sync":   {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT},
	"seek":   {syscall.EIO, syscall.ESPIPE, syscall.EINVAL, syscall.EOVERFLOW},
	"":       {syscall.EIO, syscall.ENOENT, syscall.EACCES},
}

// Errno picks the error of a fault. What a caller may repeat until it works is
// not given for ever.
func Errno(kind string, f *Fault) syscall.Errno {
	l, ok := errnos[kind]
	if !ok {
		l = errnos[""]
	}
	x := f.Arg * 0x9e3779b97f4a7c15
	n := l[(x>>33)%uint64(len(l))]
	if f.Rep && (n == syscall.EINTR || n == syscall.EAGAIN) {
		return syscall.EIO
	}
	return n
}

func Err(op, path string, en syscall.Errno) error {
	return &fs.PathError{Op: op, Path: path, Err: en}
}

// ErrEntropy is the injected failure of the entropy source.
var ErrEntropy = errors.New("verif: entropy source failed")

// SetFull marks the disk full.
func (e *Engine) SetFull() { e.full = true }

// Full reports whether the disk is full.
func (e *Engine) Full() bool { return e.full }
