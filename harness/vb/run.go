package vb

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/weaviate/sroar"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

// Ev is one event of a trace.
type Ev = map[string]any

// Run executes calls on the real library and records them as one trace.
type Run struct {
	Name   string   `json:"name"`
	Labels []string `json:"labels"`
	Ev     []Ev     `json:"ev"`

	Compress bool `json:"-"` // large columns: validated against TraceRuns.tla

	mu         sync.Mutex
	dir        string
	seq        int
	goroutines int               // when the trace began
	stale      map[string]string // descriptors then

	cut  map[string]bool // files that are shorter than they were
	Pan  []string        `json:"-"`
	What string          `json:"-"`
}

// Hooks of the instrumented os package; nil/no-ops without it.
var (
	FaultHits = func() int { return 0 } // operations that were made to fail
	MustHits  = func() int { return 0 } // those among them that no call may succeed without
	FlushIO   = func(*Run) {}
)

var runDirs int // directories in use

// NewRun makes a trace; its files live in a directory of its own under dir.
func NewRun(dir, name string, labels ...string) *Run {
	// The same path comes up with different files in the course of a process.
	runDirs++
	d := filepath.Join(dir, fmt.Sprintf("r%05d", runDirs))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	// Earlier traces may have ended with open files.
	return &Run{Name: name, Labels: labels, dir: d, Ev: []Ev{}, goroutines: runtime.NumGoroutine(), stale: openBelow(d)}
}

func (r *Run) Path(f string) string { return filepath.Join(r.dir, f) }
func (r *Run) Cleanup()             { os.RemoveAll(r.dir); runDirs-- }

// Add records an event, after the file operations that came before it.
func (r *Run) Add(e Ev) {
	FlushIO(r)
	r.add(e)
}

func (r *Run) add(e Ev) {
	r.mu.Lock()
	r.Ev = append(r.Ev, e)
	r.mu.Unlock()
}

// InsertBefore puts events before the last n ones.
func (r *Run) InsertBefore(n int, evs []Ev) {
	r.mu.Lock()
	defer r.mu.Unlock()
	at := len(r.Ev) - n
	r.Ev = append(append(append([]Ev{}, r.Ev[:at]...), evs...), r.Ev[at:]...)
}

func (r *Run) next() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.seq++
	return r.seq
}

// Watchdog: the call in progress, for reports about hangs.
var (
	wdMu    sync.Mutex
	wdCalls = map[int]wdCall{}
	wdNext  int
)

type wdCall struct {
	what  string
	since time.Time
}

// StartWatchdog ends the process with status 97 if a library call does not return for limit.
func StartWatchdog(limit time.Duration) {
	go func() {
		for {
			time.Sleep(time.Second)
			wdMu.Lock()
			for _, c := range wdCalls {
				if time.Since(c.since) > limit {
					fmt.Fprintf(os.Stderr, "HANG: %s did not return within %v\n", c.what, limit)
					os.Exit(97)
				}
			}
			wdMu.Unlock()
		}
	}()
}

// call runs one library call; it reports a panic as outcome "panic".
func (r *Run) call(what string, f func()) (panicked bool) {
	wdMu.Lock()
	wdNext++
	k := wdNext
	wdCalls[k] = wdCall{r.Name + ": " + what, time.Now()}
	wdMu.Unlock()
	defer func() {
		wdMu.Lock()
		delete(wdCalls, k)
		wdMu.Unlock()
		if p := recover(); p != nil {
			panicked = true
			r.mu.Lock()
			r.Pan = append(r.Pan, fmt.Sprintf("%s: %v\n%s", what, p, debug.Stack()))
			r.mu.Unlock()
		}
	}()
	f()
	return
}

// Do runs several library calls; a panic is reported with the result of the next fact.
func (r *Run) Do(what string, f func()) (panicked bool) { return r.call(what, f) }

func outcome(panicked bool, err error) string {
	if panicked {
		return "panic"
	}
	if err != nil {
		return "err"
	}
	return "ok"
}

/* Callers reuse their buffers: the slices and bitmaps passed to the library are taken from pools, so that
the same addresses come with different contents in the course of a process. */

type input struct {
	ids  []uint64
	vals []int64
	full struct {
		ids  []uint64
		vals []int64
	}
}

const tail = 3 // elements behind the end of a slice, which belong to the caller as well

var (
	poolMu  sync.Mutex
	inputs  []*input
	bitmaps []*sroar.Bitmap
)

func takeInput(ids []uint64, vals []int64) *input {
	poolMu.Lock()
	var in *input
	if n := len(inputs); n > 0 {
		in, inputs = inputs[n-1], inputs[:n-1]
	} else {
		in = &input{}
	}
	poolMu.Unlock()
	for n := len(ids) + tail; len(in.full.ids) < n; {
		in.full.ids = make([]uint64, 2*n)
	}
	for n := len(vals) + tail; len(in.full.vals) < n; {
		in.full.vals = make([]int64, 2*n)
	}
	in.ids, in.vals = in.full.ids[:len(ids)], in.full.vals[:len(vals)]
	copy(in.ids, ids)
	copy(in.vals, vals)
	for i := 0; i < tail; i++ {
		in.full.ids[len(ids)+i], in.full.vals[len(vals)+i] = 0x7A11+uint64(i), -0x7A11-int64(i)
	}
	return in
}

// same tells whether the slices hold what they held.
func (in *input) same(ids []uint64, vals []int64) bool {
	for i := 0; i < tail; i++ {
		if in.full.ids[len(ids)+i] != 0x7A11+uint64(i) || in.full.vals[len(vals)+i] != -0x7A11-int64(i) {
			return false
		}
	}
	return equalU(ids, in.ids) && equalI(vals, in.vals)
}

// give returns the slices to the pool, overwritten: the library must not keep them.
func (in *input) give() {
	for i := range in.ids {
		in.ids[i] ^= 0xA5A5
	}
	for i := range in.vals {
		in.vals[i] ^= 0x5A5A
	}
	poolMu.Lock()
	inputs = append(inputs, in)
	poolMu.Unlock()
}

func takeBitmap(f Filter) *sroar.Bitmap {
	if f.obj != nil || !f.Has {
		return f.obj
	}
	poolMu.Lock()
	var b *sroar.Bitmap
	if n := len(bitmaps); n > 0 {
		b, bitmaps = bitmaps[n-1], bitmaps[:n-1]
	} else {
		b = sroar.NewBitmap()
	}
	poolMu.Unlock()
	*b = *f.fresh()
	return b
}

func giveBitmap(f Filter, b *sroar.Bitmap) {
	if f.obj == nil && b != nil {
		poolMu.Lock()
		bitmaps = append(bitmaps, b)
		poolMu.Unlock()
	}
}

/* ------------------------------- writer -------------------------------- */

type Writer struct {
	closed bool
	r      *Run
	ID     int
	File   string
	W      *col.Writer
	Enc    uint32
	Target uint32
}

const DefaultTarget = 16384

// Options are values: half of them are made anew, the others are used for many writers.
var options struct {
	sync.Mutex
	n      int
	enc    map[uint32]col.WriterOption
	target map[uint32]col.WriterOption
}

func option(of func() *map[uint32]col.WriterOption, make1 func(uint32) col.WriterOption, x uint32) col.WriterOption {
	options.Lock()
	defer options.Unlock()
	m := of()
	if *m == nil {
		*m = map[uint32]col.WriterOption{}
	}
	if options.n++; options.n%2 == 0 {
		return make1(x)
	}
	if (*m)[x] == nil {
		(*m)[x] = make1(x)
	}
	return (*m)[x]
}

func withEncoding(enc uint32) col.WriterOption {
	return option(func() *map[uint32]col.WriterOption { return &options.enc }, col.WithEncoding, enc)
}

func withBlockSize(target uint32) col.WriterOption {
	return option(func() *map[uint32]col.WriterOption { return &options.target }, col.WithBlockSize, target)
}

// NewWriter creates a writer; target 0 and enc 0 with plain=true use the library's defaults.
func (r *Run) NewWriter(file string, enc, target uint32) *Writer {
	w := &Writer{r: r, ID: r.next(), File: file, Enc: enc, Target: target}
	opts := []col.WriterOption{}
	if enc != 0 || target != DefaultTarget {
		opts = append(opts, withEncoding(enc))
		if target != DefaultTarget {
			opts = append(opts, withBlockSize(target))
		}
	}
	var err error
	m := MustHits()
	p := r.call("NewWriter", func() { w.W, err = col.NewWriter(r.Path(file), opts...) })
	r.Add(Ev{"op": "wnew", "w": w.ID, "f": file, "enc": int(enc), "target": clamp(target), "r": outcome(p, err), "must": MustHits() > m})
	if w.W == nil {
		return nil
	}
	return w
}

func equalU(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func equalI(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// WriteBlock returns the outcome and, for "full", how many pairs were stored.
func (w *Writer) WriteBlock(ids []uint64, vals []int64) (string, int) {
	h, m := FaultHits(), MustHits()
	in := takeInput(ids, vals)
	var err error
	p := w.r.call("WriteBlock", func() { err = w.W.WriteBlock(in.ids, in.vals) })
	o, n := outcome(p, err), 0
	var full *col.BlockFullError
	if !p && errors.As(err, &full) {
		o, n = "full", full.ItemsWritten
	}
	ci, cv := w.r.cols(ids, vals)
	w.r.Add(Ev{"op": "wblock", "w": w.ID, "ids": ci, "vals": cv, "r": o, "n": Small(int64(n)),
		"fault": FaultHits() > h, "must": MustHits() > m, "mut": !in.same(ids, vals)})
	in.give()
	return o, n
}

// WriteAll keeps writing until every pair is stored or a write fails.
func (w *Writer) WriteAll(ids []uint64, vals []int64) string {
	for len(ids) > 0 {
		o, n := w.WriteBlock(ids, vals)
		switch {
		case o == "ok":
			return o
		case o == "full" && n > 0 && n < len(ids):
			ids, vals = ids[n:], vals[n:]
		default:
			return o
		}
	}
	return "ok"
}

func (w *Writer) Estimate(ids []uint64, vals []int64) {
	var n uint64
	var err error
	in := takeInput(ids, vals)
	p := w.r.call("EstimateBlockSize", func() { n, err = w.W.EstimateBlockSize(in.ids, in.vals) })
	ci, cv := w.r.cols(ids, vals)
	w.r.Add(Ev{"op": "west", "w": w.ID, "ids": ci, "vals": cv, "r": outcome(p, err), "size": Small(int64(n)),
		"mut": !in.same(ids, vals)})
	in.give()
}

func (w *Writer) Finalize(andClose bool) string {
	h, m := FaultHits(), MustHits()
	var err error
	p := w.r.call("Finalize", func() {
		if andClose {
			err = w.W.FinalizeAndClose()
		} else {
			err = w.W.Finalize()
		}
	})
	o := outcome(p, err)
	w.closed = w.closed || (andClose && o == "ok")
	w.r.Add(Ev{"op": "wfin", "w": w.ID, "close": andClose, "r": o, "fault": FaultHits() > h, "must": MustHits() > m})
	return o
}

// Open tells whether the writer has not been closed.
func (w *Writer) Open() bool { return !w.closed }

func (w *Writer) Close() string {
	w.closed = true
	var err error
	h, m := FaultHits(), MustHits()
	p := w.r.call("Close", func() { err = w.W.Close() })
	w.r.Add(Ev{"op": "wclose", "w": w.ID, "r": outcome(p, err), "fault": FaultHits() > h, "must": MustHits() > m})
	return outcome(p, err)
}

/* ---------------------------- simple writer ---------------------------- */

type Simple struct {
	r    *Run
	ID   int
	File string
	S    *col.SimpleWriter
	// Ties: large batches may have equal ids with different values; the last id of a batch is not the first
	// of the next one.
	Ties bool
}

func (r *Run) NewSimple(file string, enc, target uint32) *Simple {
	s := &Simple{r: r, ID: r.next(), File: file}
	opts := []col.WriterOption{withEncoding(enc)}
	if target != DefaultTarget {
		opts = append(opts, withBlockSize(target))
	}
	var err error
	m := MustHits()
	p := r.call("NewSimpleWriter", func() { s.S, err = col.NewSimpleWriter(r.Path(file), opts...) })
	r.Add(Ev{"op": "snew", "s": s.ID, "f": file, "enc": int(enc), "target": clamp(target), "r": outcome(p, err), "must": MustHits() > m})
	if s.S == nil {
		return nil
	}
	return s
}

func (s *Simple) total() int { return Small(int64(s.S.TotalItems())) }

func (s *Simple) Write(ids []uint64, vals []int64) string {
	h, m := FaultHits(), MustHits()
	in := takeInput(ids, vals)
	var err error
	p := s.r.call("SimpleWriter.Write", func() { err = s.S.Write(in.ids, in.vals) })
	o := outcome(p, err)
	ci, cv := s.r.bag(ids, vals, s.Ties)
	s.r.Add(Ev{"op": "swrite", "s": s.ID, "ids": ci, "vals": cv, "r": o, "total": s.total(),
		"fault": FaultHits() > h, "must": MustHits() > m, "mut": !in.same(ids, vals)})
	in.give()
	return o
}

func (s *Simple) SetTarget(n int) {
	var err error
	p := s.r.call("SetTargetBlockSize", func() { err = s.S.SetTargetBlockSize(n) })
	s.r.Add(Ev{"op": "starget", "s": s.ID, "target": clamp(uint32(n)), "r": outcome(p, err)})
}

func (s *Simple) Close() string {
	h, m := FaultHits(), MustHits()
	var err error
	p := s.r.call("SimpleWriter.Close", func() { err = s.S.Close() })
	o := outcome(p, err)
	s.r.Add(Ev{"op": "sclose", "s": s.ID, "r": o, "total": s.total(), "closed": s.S.IsClosed(), "fault": FaultHits() > h, "must": MustHits() > m})
	return o
}

/* ------------------------------- reader -------------------------------- */

type Reader struct {
	r    *Run
	ID   int
	File string
	R    *col.Reader

	caching atomic.Bool
}

// hitsSince tells how many operations failed since there were h failures; what is missing of a file that
// has become shorter makes any number of reads fail.
func (r *Run) hitsSince(h int, files ...string) int {
	for _, f := range files {
		if r.cut[f] {
			return 1000
		}
	}
	return FaultHits() - h
}

// Cut makes a file shorter, Restore gives it its bytes back.
func (r *Run) Cut(file string, size int64) {
	if r.cut == nil {
		r.cut = map[string]bool{}
	}
	r.cut[file] = true
	if err := os.Truncate(r.Path(file), size); err != nil {
		panic(err)
	}
}

func (r *Run) Restore(file string, b []byte) {
	f, err := os.OpenFile(r.Path(file), os.O_WRONLY, 0)
	if err == nil {
		_, err = f.WriteAt(b, 0)
		f.Close()
	}
	if err != nil {
		panic(err)
	}
	delete(r.cut, file)
}

// Descriptors is the number of descriptors that this process has of files of the trace.
func (r *Run) Descriptors() int {
	n := 0
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, e := range l {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, r.dir+"/") && !strings.HasSuffix(t, " (deleted)") {
			n++
		}
	}
	return n
}

// openBelow returns the descriptors of files in a directory, and their paths.
func openBelow(dir string) map[string]string {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	out := map[string]string{}
	for _, e := range l {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (t == dir || strings.HasPrefix(t, dir+"/")) {
			out[e.Name()] = t
		}
	}
	return out
}

var leaks int // how often goroutines were left

// Held records what the process has in use after the calls so far: files of the trace that are open, goroutines
// beyond those that were there when the trace began (after a while), and the files that exist.  Names that start
// with "x-" are not the library's.
func (r *Run) Held() {
	open := map[string]bool{}
	for fd, t := range openBelow(r.dir) {
		if r.stale[fd] != t {
			open[strings.TrimPrefix(strings.TrimPrefix(t, r.dir), "/")] = true
		}
	}
	gor := 0
	wait := 3000
	if leaks > 8 {
		wait = 20 // enough has been reported
	}
	for i := 0; i < wait; i++ {
		if gor = runtime.NumGoroutine() - r.goroutines; gor <= 0 {
			gor = 0
			break
		}
		time.Sleep(time.Millisecond)
	}
	if gor > 0 {
		r.goroutines += gor // once is enough
		leaks++
	}
	names := []string{}
	l, err := os.ReadDir(r.dir)
	if err != nil {
		panic(err)
	}
	for _, e := range l {
		if !strings.HasPrefix(e.Name(), "x-") {
			names = append(names, e.Name())
		}
	}
	files := []string{}
	for f := range open {
		files = append(files, f)
	}
	sort.Strings(files)
	r.Add(Ev{"op": "held", "open": files, "gor": gor, "names": names})
}

// Open returns nil if the file cannot be opened.
func (r *Run) Open(file string) *Reader {
	rd := &Reader{r: r, ID: r.next(), File: file}
	var err error
	h := FaultHits()
	p := r.call("NewReader", func() { rd.R, err = col.NewReader(r.Path(file)) })
	o := outcome(p, err)
	r.Add(Ev{"op": "open", "rd": rd.ID, "f": file, "r": o, "hits": r.hitsSince(h, file)})
	if o != "ok" {
		return nil
	}
	return rd
}

func (rd *Reader) Close() {
	var err error
	m := MustHits()
	p := rd.r.call("Reader.Close", func() { err = rd.R.Close() })
	rd.r.Add(Ev{"op": "rclose", "rd": rd.ID, "r": outcome(p, err), "must": MustHits() > m})
}

func (rd *Reader) Describe() {
	e := Ev{"op": "desc", "rd": rd.ID, "version": -1, "enc": -1, "nblocks": -1, "delta": false, "varint": false}
	rd.r.call("describe", func() {
		e["version"], e["enc"], e["nblocks"] = Small(int64(rd.R.Version())), Small(int64(rd.R.EncodingType())), Small(int64(rd.R.BlockCount()))
		e["delta"], e["varint"] = rd.R.IsDeltaEncoded(), rd.R.IsVarIntEncoded()
	})
	rd.r.Add(e)
}

func (rd *Reader) pairs(b uint64) (ids []uint64, vals []int64, o string) {
	var err error
	p := rd.r.call("GetPairs", func() { ids, vals, err = rd.R.GetPairs(b) })
	return ids, vals, outcome(p, err)
}

// Pairs reads one block (b may be out of range); scribble overwrites the returned slices afterwards.
func (rd *Reader) Pairs(b uint64, scribble bool) {
	h := FaultHits()
	ids, vals, o := rd.pairs(b)
	h = rd.r.hitsSince(h, rd.File)
	idx := -1
	if b < 1<<30 {
		idx = int(b)
	}
	ci, cv := rd.r.cols(ids, vals)
	rd.r.Add(Ev{"op": "pairs", "rd": rd.ID, "b": idx, "r": o, "ids": ci, "vals": cv, "hits": h})
	if scribble {
		for i := range ids {
			ids[i] = ^ids[i]
		}
		for i := range vals {
			vals[i] = ^vals[i]
		}
	}
}

// Hold reads a block and returns a function that records whether the slices still hold what they held.
func (rd *Reader) Hold(b uint64) func() {
	ids, vals, o := rd.pairs(b)
	if o != "ok" {
		return func() {}
	}
	i2, v2 := append([]uint64{}, ids...), append([]int64{}, vals...)
	return func() {
		rd.r.Fact("same", "slices returned earlier", equalU(ids, i2) && equalI(vals, v2), true)
	}
}

func (rd *Reader) NBlocks() int {
	n := 0
	rd.r.call("BlockCount", func() { n = int(rd.R.BlockCount()) })
	if n < 0 || n > 1<<20 {
		return 0
	}
	return n
}

// Dump reads all blocks; owner is the simple writer that wrote the file, or nil.
func (rd *Reader) Dump(owner *Simple) bool {
	o := "ok"
	h := FaultHits()
	var is [][]uint64
	var vs [][]int64
	for b := 0; b < rd.NBlocks(); b++ {
		ids, vals, ro := rd.pairs(uint64(b))
		if ro != "ok" || len(ids) != len(vals) {
			o = "err"
			break
		}
		is, vs = append(is, ids), append(vs, vals)
	}
	if owner != nil && owner.Ties {
		untie(is, vs)
	}
	blocks := []Ev{}
	for b := range is {
		ci, cv := rd.r.cols(is[b], vs[b])
		blocks = append(blocks, Ev{"ids": ci, "vals": cv})
	}
	kind, id := "w", 0
	if owner != nil {
		kind, id = "s", owner.ID
	}
	rd.r.Add(Ev{"op": "dump", "rd": rd.ID, "kind": kind, "o": id, "r": o, "blocks": blocks, "hits": rd.r.hitsSince(h, rd.File)})
	return o == "ok"
}

func aggJSON(p bool, a col.AggregateResult) Ev {
	if p {
		return Ev{"count": -9, "min": W{}, "max": W{}, "sum": W{}, "avgok": false}
	}
	avg := 0.0
	if a.Count != 0 {
		avg = float64(a.Sum) / float64(a.Count)
	}
	// Equal up to rounding: an average may be computed in another, equally good way.
	ok := a.Avg == avg || math.Abs(a.Avg-avg) <= 1e-9*math.Abs(avg)
	return Ev{"count": Small(int64(a.Count)), "min": WI(a.Min), "max": WI(a.Max), "sum": WI(a.Sum), "avgok": ok}
}

type AggOpts struct {
	Skip        bool
	Par         int
	Allow, Deny Filter
}

func (rd *Reader) agg(o AggOpts) (Ev, bool) {
	allow, deny := takeBitmap(o.Allow), takeBitmap(o.Deny)
	defer func() { giveBitmap(o.Deny, deny); giveBitmap(o.Allow, allow) }()
	var a col.AggregateResult
	p := rd.r.call("AggregateWithOptions", func() {
		if !o.Skip && o.Par == 0 && !o.Allow.Has && !o.Deny.Has {
			a = rd.R.Aggregate()
			b := rd.R.AggregateWithOptions(col.DefaultAggregateOptions())
			if a != b {
				a.Count = -9
			}
			return
		}
		a = rd.R.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: o.Skip, Filter: allow, DenyFilter: deny, Parallel: o.Par})
	})
	return aggJSON(p, a), !o.Allow.same(allow) || !o.Deny.same(deny)
}

// Aggregate records an aggregation; a parallel one together with its sequential counterpart.
func (rd *Reader) Aggregate(o AggOpts) {
	h := FaultHits()
	e, mut := rd.agg(o)
	rd.aggEvent(o, e, mut)
	e["hits"] = rd.r.hitsSince(h, rd.File)
}

func (rd *Reader) aggEvent(o AggOpts, e Ev, mut bool) {
	seq := Ev{"count": 0, "min": W{}, "max": W{}, "sum": W{}, "avgok": true}
	if o.Par != 0 {
		so := o
		so.Par = 0
		seq, _ = rd.agg(so)
	}
	e["op"], e["rd"], e["skip"], e["par"], e["mut"], e["seq"], e["hits"] = "agg", rd.ID, o.Skip, o.Par, mut, seq, 0
	e["allow"], e["deny"] = rd.r.filt(o.Allow), rd.r.filt(o.Deny)
	rd.r.Add(e)
}

// Answers are the different answers a reader gave to calls made again and again: only the first answer to a
// call, and those that differ from all before, are recorded.
type Answers struct {
	rd   *Reader
	mu   sync.Mutex
	seen map[string]bool
}

func (rd *Reader) Distinct() *Answers { return &Answers{rd: rd, seen: map[string]bool{}} }

func (a *Answers) first(call string, answer ...any) bool {
	h := sha256.New()
	for _, x := range answer {
		switch x.(type) {
		case []uint64, []int64:
			binary.Write(h, binary.LittleEndian, x)
		default:
			fmt.Fprint(h, x)
		}
	}
	k := call + string(h.Sum(nil))
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.seen[k] {
		return false
	}
	a.seen[k] = true
	return true
}

func (a *Answers) Pairs(b uint64) {
	ids, vals, o := a.rd.pairs(b)
	if a.first(fmt.Sprint("pairs ", b), ids, vals, o) {
		ci, cv := a.rd.r.cols(ids, vals)
		a.rd.r.Add(Ev{"op": "pairs", "rd": a.rd.ID, "b": int(b), "r": o, "ids": ci, "vals": cv, "hits": 0})
	}
}

func (a *Answers) Aggregate(o AggOpts) {
	e, mut := a.rd.agg(o)
	if a.first(fmt.Sprint("agg ", o.Skip, o.Par, o.Allow.Has, len(o.Allow.IDs), o.Deny.Has, len(o.Deny.IDs)), e, mut) {
		a.rd.aggEvent(o, e, mut)
	}
}

func (rd *Reader) Iterator(allow, deny Filter) {
	a, d := takeBitmap(allow), takeBitmap(deny)
	defer func() { giveBitmap(deny, d); giveBitmap(allow, a) }()
	var l []uint64
	p := rd.r.call("FilteredBlockIterator", func() { l = rd.R.FilteredBlockIterator(a, d) })
	list := []int{}
	for _, b := range l {
		list = append(list, Small(int64(b)))
	}
	if p {
		list = []int{-9}
	}
	rd.r.Add(Ev{"op": "iter", "rd": rd.ID, "allow": rd.r.filt(allow), "deny": rd.r.filt(deny), "list": list,
		"mut": !allow.same(a) || !deny.same(d)})
	for i := range l { // the list is the caller's
		l[i] = 1 << 40
	}
}

func (rd *Reader) Bitmap() { rd.bitmap() }

// HoldBitmap gets the bitmap and returns a function that records whether it still is what it was.
// Without caching it is the caller's own, who changes it.
func (rd *Reader) HoldBitmap() func() {
	b := rd.bitmap()
	if b == nil {
		return func() {}
	}
	if !rd.caching.Load() {
		if ids := b.ToArray(); len(ids) > 0 {
			b.Remove(ids[len(ids)/2])
		}
		b.Set(77)
	}
	was := b.ToArray()
	return func() {
		rd.r.Fact("same", "bitmap returned earlier", equalU(b.ToArray(), was), true)
	}
}

func (rd *Reader) bitmap() (bm *sroar.Bitmap) {
	ids := []uint64{}
	var err error
	h := FaultHits()
	p := rd.r.call("GetGlobalIDBitmap", func() {
		b, e := rd.R.GetGlobalIDBitmap()
		err = e
		bm = b
		if e == nil {
			ids = b.ToArray()
			if b.GetCardinality() != len(ids) {
				err = errors.New("cardinality")
			}
		}
	})
	rd.r.Add(Ev{"op": "bitmap", "rd": rd.ID, "r": outcome(p, err), "ids": rd.r.set(ids), "hits": rd.r.hitsSince(h, rd.File)})
	return bm
}

func (rd *Reader) Caching(on bool) {
	rd.caching.Store(on)
	rd.r.call("caching", func() {
		if on {
			rd.R.EnableGlobalIDBitmapCaching()
		} else {
			rd.R.DisableGlobalIDBitmapCaching()
		}
	})
	rd.r.Add(Ev{"op": "cache", "rd": rd.ID, "on": on})
}

/* ----------------------------- multi reader ---------------------------- */

type Multi struct {
	r     *Run
	ID    int
	M     *multicol.MultiReader
	files []string
}

func (r *Run) NewMulti(rds ...*Reader) *Multi {
	m := &Multi{r: r, ID: r.next()}
	rs := []*col.Reader{}
	ids := []int{}
	for _, rd := range rds {
		rs = append(rs, rd.R)
		ids = append(ids, rd.ID)
		m.files = append(m.files, rd.File)
	}
	m.M = multicol.NewMultiReader(rs)
	r.Add(Ev{"op": "mnew", "m": m.ID, "rds": ids})
	return m
}

func (m *Multi) Aggregate(skip bool, allow Filter) {
	f := takeBitmap(allow)
	defer giveBitmap(allow, f)
	var a col.AggregateResult
	var err error
	h := FaultHits()
	p := m.r.call("MultiReader.Aggregate", func() {
		a, err = m.M.Aggregate(multicol.AggregateOptions{SkipPreCalculated: skip, Filter: f})
	})
	e := aggJSON(p || err != nil, a)
	e["op"], e["m"], e["skip"], e["allow"], e["r"], e["mut"] = "magg", m.ID, skip, m.r.filt(allow), outcome(p, err), !allow.same(f)
	e["hits"] = m.r.hitsSince(h, m.files...)
	m.r.Add(e)
}

// Close closes all readers of the collection.
func (m *Multi) Close() {
	must := MustHits()
	var err error
	p := m.r.call("MultiReader.Close", func() { err = m.M.Close() })
	m.r.Add(Ev{"op": "mclose", "m": m.ID, "r": outcome(p, err), "must": MustHits() > must})
}

/* ------------------------------- others -------------------------------- */

// Fact records an observation that the specification compares with what it must be.
func (r *Run) Fact(label, what string, got, want any) {
	r.Add(Ev{"op": "fact", "label": label, "what": what, "got": fmt.Sprint(got), "want": fmt.Sprint(want)})
}

// Image records the bytes of a file and the ids in its bitmap, found where the header says.
func (r *Run) Image(file string) {
	b, err := os.ReadFile(r.Path(file))
	if err != nil {
		panic(err)
	}
	n := make([]int, len(b))
	for i := range b {
		n[i] = int(b[i])
	}
	ids := []uint64{}
	if len(b) > 64 {
		off := binary.LittleEndian.Uint64(b[44:])
		if off > 0 && off+4 <= uint64(len(b)) {
			k := uint64(binary.LittleEndian.Uint32(b[off:]))
			if off+4+k <= uint64(len(b)) {
				func() {
					defer func() { recover() }()
					ids = sroar.FromBufferWithCopy(b[off+4 : off+4+k]).ToArray()
				}()
			}
		}
	}
	r.Add(Ev{"op": "image", "f": file, "bytes": n, "bmids": WUs(ids)})
}

// TryOpen opens and closes a file; it returns the outcome.
func (r *Run) TryOpen(path string) string {
	var rd *col.Reader
	var err error
	p := r.call("NewReader", func() { rd, err = col.NewReader(path) })
	if rd != nil && err == nil {
		r.call("Close", func() { rd.Close() })
	}
	return outcome(p, err)
}

// Weight estimates the cost of validating the trace.
func (r *Run) Weight() int {
	n := 0
	for _, e := range r.Ev {
		n += 2
		for _, k := range []string{"ids", "vals", "bytes", "list"} {
			switch x := e[k].(type) {
			case []W:
				n += len(x)
			case []int:
				n += len(x) / 4
			case []Seg:
				n += 10 * len(x)
			}
		}
		if bs, ok := e["blocks"].([]Ev); ok {
			for _, b := range bs {
				switch x := b["ids"].(type) {
				case []W:
					n += 1 + 2*len(x)
				case []Seg:
					n += 1 + 20*len(x)
				}
			}
		}
	}
	return n
}

// Digest identifies the content of the trace.
func (r *Run) Digest() string {
	b, err := json.Marshal([]any{r.Labels, r.Ev})
	if err != nil {
		panic(err)
	}
	s := sha256.Sum256(b)
	return string(s[:])
}

// Sum is a digest of a file.
func (r *Run) Sum(file string) string {
	b, err := os.ReadFile(r.Path(file))
	if err != nil {
		return err.Error()
	}
	return fmt.Sprintf("%x", sha256.Sum256(b))
}

// Inspect opens an image of a file and reads everything; it returns the outcome as an event (without
// being recorded) and a digest of it.
func (r *Run) Inspect(file string, img []byte) (Ev, string) {
	path := r.Path(file)
	if err := os.WriteFile(path, img, 0o644); err != nil {
		panic(err)
	}
	defer os.Remove(path)
	e := Ev{"op": "crash", "blocks": []Ev{}, "ids": []W{}, "count": 0, "min": W{}, "max": W{}, "sum": W{}, "avgok": true}
	var rd *col.Reader
	var err error
	p := r.call("NewReader", func() { rd, err = col.NewReader(path) })
	e["r"] = outcome(p, err)
	if e["r"] == "ok" {
		x := &Reader{r: r, R: rd}
		blocks := []Ev{}
		for b := 0; b < x.NBlocks() && b < 1<<12; b++ {
			ids, vals, o := x.pairs(uint64(b))
			ci, cv := r.cols(ids, vals)
			blocks = append(blocks, Ev{"ids": ci, "vals": cv})
			if o != "ok" || len(ids) != len(vals) {
				blocks = append(blocks, Ev{"ids": []W{}, "vals": []W{}}) // never part of a file
				break
			}
		}
		e["blocks"] = blocks
		e["ids"] = []W{{-1, 0, 0}}
		if r.Compress {
			e["ids"] = [][2]W{{{-1, 0, 0}, {-1, 0, 0}}}
		}
		r.call("GetGlobalIDBitmap", func() {
			if b, err := rd.GetGlobalIDBitmap(); err == nil {
				e["ids"] = r.set(b.ToArray())
			}
		})
		var a col.AggregateResult
		p := r.call("Aggregate", func() { a = rd.Aggregate() })
		for k, v := range aggJSON(p, a) {
			e[k] = v
		}
		r.call("Close", func() { rd.Close() })
	}
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	s := sha256.Sum256(b)
	return e, string(s[:])
}

// BlockOffsets reads the offsets of the blocks from the footer of a file.
func (r *Run) BlockOffsets(file string) (offs []int64) {
	b, err := os.ReadFile(r.Path(file))
	if err != nil || len(b) < 100 {
		return nil
	}
	fs := int(binary.LittleEndian.Uint64(b[len(b)-24:]))
	if fs < 4 || fs > len(b)-24 {
		return nil
	}
	f := b[len(b)-24-fs:]
	n := int(binary.LittleEndian.Uint32(f))
	for i := 0; i < n && 4+56*i+8 <= len(f); i++ {
		offs = append(offs, int64(binary.LittleEndian.Uint64(f[4+56*i:])))
	}
	return
}

// AggregateGated is Aggregate of a parallel aggregation; done is called when it has returned.
func (rd *Reader) AggregateGated(o AggOpts, done func()) {
	e, mut := rd.agg(o)
	done()
	rd.aggEvent(o, e, mut)
}

// Contents are all pairs of a file, in order; ok is false if it cannot be opened or read.
func (r *Run) Contents(file string) (ids []uint64, vals []int64, ok bool) {
	var rd *col.Reader
	var err error
	p := r.call("NewReader", func() { rd, err = col.NewReader(r.Path(file)) })
	if p || err != nil {
		return nil, nil, false
	}
	ok = true
	r.call("GetPairs", func() {
		for b := uint64(0); b < rd.BlockCount() && ok; b++ {
			i, v, err := rd.GetPairs(b)
			ok = err == nil
			ids, vals = append(ids, i...), append(vals, v...)
		}
		rd.Close()
	})
	return
}

// LastBool is a field of the last event of the given kind of fault.
func (r *Run) LastBool(key string) bool {
	for i := len(r.Ev) - 1; i >= 0; i-- {
		if b, ok := r.Ev[i][key].(bool); ok {
			return b
		}
	}
	return false
}

// DumpCommand is Dump of the file that command number c wrote.
func (rd *Reader) DumpCommand(c int) {
	rd.Dump(nil)
	e := rd.r.Ev[len(rd.r.Ev)-1]
	e["kind"], e["o"] = "c", c
}

// DumpCount is Dump of a file of which only the number of pairs is known.
func (rd *Reader) DumpCount(n int) {
	rd.Dump(nil)
	e := rd.r.Ev[len(rd.r.Ev)-1]
	e["kind"], e["o"] = "n", n
}
