//go:build osrec

package vb

import (
	"io"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Operations on files as seen by the instrumented os package.

// Op is an operation that has been carried out.
type Op struct {
	Name string `json:"-"`
	K    string `json:"k"` // w write, t truncate, s sync, x failed sync, o open, c close, k seek
	Off  int64  `json:"off"`
	Len  int    `json:"len"`
	Data []byte `json:"data,omitempty"`
	Err  bool   `json:"err,omitempty"`
	Done bool   `json:"-"` // carried out, whether or not an error was reported
}

var io_ struct {
	sync.Mutex
	prefix string
	log    []Op
	data   bool
	run    *Run
	pend   *Op // write not yet recorded in run, to be merged with adjacent ones
	osync  map[string]bool

	count    int    // operations seen since Fault
	from     int    // first failing operation (1-based), 0: none
	n        int    // number of failing operations
	kind     string // which operations count ("": all; "@": writes to the byte at offset `at')
	at       int64
	mode     string
	hits     int
	must     int
	errno    int
	kinds    string
	lastHit  string
	injected string // how the current operation is made to fail

	gate *Gate

	ops []*OpFault
}

// OpFault is a kind of operation on a file that fails: "read" (of the byte at offset At), "open",
// "stat" or "close".
type OpFault struct {
	Name, Kind string
	At         int64
	Mode       string // reads: "err" nothing, "part" half of it, "late" all of it, and an error
	Left       int    // how often
}

// FailOps makes operations fail from now on, instead of those before.
func FailOps(fs ...*OpFault) {
	io_.Lock()
	io_.ops = fs
	io_.Unlock()
}

// failsOp tells whether the operation is one that fails.
func failsOp(op *os.VOp) *OpFault {
	for _, f := range io_.ops {
		kind := op.Kind
		if kind == "pread" {
			kind = "read"
		}
		if f.Left > 0 && f.Name == op.Name && f.Kind == kind &&
			(kind != "read" || op.Off <= f.At && f.At < op.Off+int64(len(op.Data))) {
			f.Left--
			return f
		}
	}
	return nil
}

const faultKinds = "write sync truncate seek close"

// Watch records the operations on files below dir.  With r, they become events of the trace.
func Watch(dir string, data bool, r *Run) {
	io_.Lock()
	defer io_.Unlock()
	io_.prefix, io_.log, io_.data, io_.run, io_.pend = dir, nil, data, r, nil
	io_.osync = map[string]bool{}
	if os.VHook == nil {
		os.VHook, os.VAfter = before, after
		FaultHits = func() int { io_.Lock(); defer io_.Unlock(); return io_.hits }
		MustHits = func() int { io_.Lock(); defer io_.Unlock(); return io_.must }
		FlushIO = flushIO
	}
}

// Unwatch stops recording and injecting, and returns the operations.
func Unwatch() []Op {
	flushIO(nil)
	io_.Lock()
	defer io_.Unlock()
	l := io_.log
	io_.prefix, io_.log, io_.run, io_.from, io_.gate, io_.ops = "", nil, nil, 0, nil, nil
	return l
}

// TakeOps returns the operations since the last time.
func TakeOps() []Op {
	io_.Lock()
	defer io_.Unlock()
	l := io_.log
	io_.log = nil
	return l
}

// OpCount returns how many operations that can fail have been seen.
func OpCount() int { io_.Lock(); defer io_.Unlock(); return io_.count }

// Fault makes the k-th operation from now on (1-based) fail, and the n-1 after it.
//
//	err:   nothing is done, an error is returned
//	part:  half of a write is done, an error is returned
//	short: half of a write is done, fewer bytes than asked for are reported, without an error
//	late:  the operation is done, and an error is returned
func Fault(k, n int, mode string) { FaultKind("", k, n, mode) }

// FaultKind is Fault among the operations of one kind.
func FaultKind(kind string, k, n int, mode string) {
	io_.Lock()
	defer io_.Unlock()
	io_.kind = kind
	io_.count, io_.from, io_.n, io_.mode, io_.lastHit = 0, k, n, mode, ""
	io_.errno = k + 2*int(mode[0]) + n // the same one whenever the trace is repeated
}

// NoFault ends the injection; it returns the kind of the last operation that failed, "" if none did.
func NoFault() string {
	io_.Lock()
	defer io_.Unlock()
	io_.from = 0
	return io_.lastHit
}

// FaultAt makes the first n writes fail that write the byte at offset off.
func FaultAt(off int64, n int, mode string) {
	FaultKind("@", 1, n, mode)
	io_.Lock()
	io_.at = off
	io_.Unlock()
}

func counts(op *os.VOp) bool {
	if io_.kind == "@" {
		return op.Kind == "write" && op.Off <= io_.at && io_.at < op.Off+int64(len(op.Data))
	}
	return strings.Contains(faultKinds, op.Kind) && (io_.kind == "" || io_.kind == op.Kind)
}

func before(op *os.VOp) (int, error) {
	io_.Lock()
	watched := io_.prefix != "" && strings.HasPrefix(op.Name, io_.prefix)
	g := io_.gate
	if !watched {
		io_.Unlock()
		return 0, nil
	}
	if f := failsOp(op); f != nil {
		defer io_.Unlock()
		io_.hits++
		if op.Kind == "close" {
			io_.must++
		}
		io_.errno++
		limit := 0
		if n := len(op.Data); f.Mode == "late" {
			limit = n
		} else if f.Mode == "part" {
			limit = n / 2
		}
		return limit, &os.PathError{Op: op.Kind, Path: op.Name, Err: []syscall.Errno{syscall.EIO, syscall.ENXIO, syscall.EINVAL,
			syscall.ESTALE, syscall.EACCES}[io_.errno%5]}
	}
	if op.Kind == "pread" {
		io_.Unlock()
		if g != nil {
			g.enter(op.Off)
		}
		return 0, nil
	}
	defer io_.Unlock()
	io_.injected = ""
	if !counts(op) {
		return 0, nil
	}
	io_.count++
	if io_.from == 0 || io_.count < io_.from || io_.count >= io_.from+io_.n {
		return 0, nil
	}
	// Which error it is must not matter (EINTR and EAGAIN are left out: package os deals with them).
	errnos := []syscall.Errno{syscall.EIO, syscall.EINVAL, syscall.ENOSPC, syscall.ENOTSUP, syscall.EDQUOT, syscall.EROFS, syscall.EFBIG}
	io_.errno++
	var err error = &os.PathError{Op: op.Kind, Path: op.Name, Err: errnos[io_.errno%len(errnos)]}
	limit := 0
	switch io_.mode {
	case "part":
		limit = len(op.Data) / 2
	case "short":
		if op.Kind == "write" && len(op.Data) > 1 {
			limit, err = len(op.Data)/2, io.EOF
		} else if op.Kind == "write" {
			err = io.EOF
		}
	case "late":
		limit = len(op.Data)
		if op.Kind != "write" {
			limit = 1
		}
	}
	io_.hits++
	io_.injected = io_.mode
	// A writer could do without a seek or truncate if it knows that nothing changes; the content of the
	// file tells whether it could.
	if op.Kind == "write" && !(op.At && io_.mode == "short") || op.Kind == "sync" || op.Kind == "close" {
		io_.must++
	}
	io_.lastHit = op.Kind
	return limit, err
}

func after(op *os.VOp, n int64, err error) {
	io_.Lock()
	watched := io_.prefix != "" && strings.HasPrefix(op.Name, io_.prefix)
	if !watched || op.Kind == "pread" || op.Kind == "read" || op.Kind == "stat" {
		io_.Unlock()
		return
	}
	o := Op{Name: op.Name, Err: err != nil, Done: err == nil || io_.injected == "late"}
	switch op.Kind {
	case "write":
		o.K, o.Off, o.Len = "w", op.Off, int(n)
		if io_.data {
			o.Data = append([]byte{}, op.Data[:n]...)
		}
	case "truncate":
		o.K, o.Off = "t", op.Off
	case "sync":
		o.K = "s"
		if o.Err && io_.injected != "" && !o.Done {
			o.K = "x"
		}
	case "open":
		o.K = "o"
		if op.Flag&os.O_TRUNC != 0 && err == nil {
			o.K = "t"
		}
		io_.osync[op.Name] = op.Flag&(syscall.O_SYNC|syscall.O_DSYNC) != 0
	case "close":
		o.K = "c"
	case "seek":
		io_.Unlock()
		return
	}
	io_.log = append(io_.log, o)
	if io_.osync[op.Name] && o.K == "w" {
		io_.log = append(io_.log, Op{Name: op.Name, K: "s"})
	}
	r := io_.run
	osync := io_.osync[op.Name]
	if r == nil || o.K == "o" || o.K == "c" || (!o.Done && o.K != "w" && o.K != "x") {
		io_.Unlock()
		return
	}
	if p := io_.pend; p != nil && o.K == "w" && p.Name == o.Name && p.Off+int64(p.Len) == o.Off && !osync {
		p.Len += o.Len
		io_.Unlock()
		return
	}
	var out []Op
	if io_.pend != nil {
		out = append(out, *io_.pend)
		io_.pend = nil
	}
	if o.K == "w" && !osync {
		io_.pend = &o
	} else {
		out = append(out, o)
		if osync {
			out = append(out, Op{Name: o.Name, K: "s"})
		}
	}
	io_.Unlock()
	for _, o := range out {
		ioEvent(r, o)
	}
}

func ioEvent(r *Run, o Op) {
	if o.K == "w" && o.Len == 0 {
		return
	}
	r.add(Ev{"op": "io", "f": strings.TrimPrefix(o.Name, r.dir+"/"), "k": o.K, "off": Small(o.Off), "len": o.Len})
}

// flushIO records a pending write before another event of r (nil: any).
func flushIO(r *Run) {
	io_.Lock()
	p, run := io_.pend, io_.run
	if p == nil || (r != nil && r != run) {
		io_.Unlock()
		return
	}
	io_.pend = nil
	io_.Unlock()
	ioEvent(run, *p)
}

// Gate lets the first reads of blocks through in a given order of the blocks: a schedule of the
// goroutines that make them.  Other reads pass; if the expected read does not come, any may.
type Gate struct {
	mu    sync.Mutex
	cond  *sync.Cond
	offs  []int64 // where the blocks start
	order []int   // blocks in the order in which they are to be read
	next  int
	open  bool
	last  time.Time
	Bent  bool // the order could not be kept
}

func NewGate(offs []int64, order []int) *Gate {
	g := &Gate{offs: offs, order: order, last: time.Now()}
	g.cond = sync.NewCond(&g.mu)
	io_.Lock()
	io_.gate = g
	io_.Unlock()
	go func() {
		for {
			time.Sleep(100 * time.Microsecond)
			g.mu.Lock()
			if time.Since(g.last) > 10*time.Millisecond {
				g.Bent = g.Bent || g.next < len(g.order)
				g.open = true
			}
			g.cond.Broadcast()
			o := g.open
			g.mu.Unlock()
			if o {
				return
			}
		}
	}()
	return g
}

// Open lets everything through from now on; it reports whether the order was kept so far.
func (g *Gate) Open() bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	kept := !g.open && g.next >= len(g.order)
	g.open = true
	g.cond.Broadcast()
	io_.Lock()
	io_.gate = nil
	io_.Unlock()
	return kept
}

func (g *Gate) enter(off int64) {
	g.mu.Lock()
	defer g.mu.Unlock()
	b := -1
	for i, o := range g.offs {
		if off >= o {
			b = i
		}
	}
	mine := -1
	for i := g.next; i < len(g.order); i++ {
		if g.order[i] == b {
			mine = i
			break
		}
	}
	if mine < 0 {
		return
	}
	// Between two reads there is time for the goroutine that made the first to finish its work.
	for !g.open && (g.next < mine || mine > 0 && time.Since(g.last) < 250*time.Microsecond) {
		g.cond.Wait()
	}
	if g.next <= mine {
		g.next = mine + 1
	}
	g.last = time.Now()
}
