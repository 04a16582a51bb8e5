//go:build osrec

package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"sync"

	"verif/harness/vb"
)

/* Failing reads, and files that become shorter while they are open (C21). */

func init() {
	profiles["C21"] = failingReads
	profiles["C21large"] = failingReadsLarge
	profiles["readplay"] = readPlay
}

var readLabels = []string{"write", "open", "pairs", "dump", "bitmap", "multi", "aggm", "aggs", "aggf", "aggp", "close", "leak"}

// image is a finished file and where its parts are.
type image struct {
	file   string
	bytes  []byte
	blocks []int64
	bitmap int64
	index  int64
	all    []uint64
}

// Parts of a file as in ReadFaults.tla: 0 the header, 1.. the blocks, and these.
const (
	partSize = 101 + iota
	partBitmap
	partCount
	partIndex
	partMeta
	partOpen  = 200
	partStat  = 201
	partClose = 300
)

func imageOf(r *vb.Run, file string, all []uint64) *image {
	m := &image{file: file, blocks: r.BlockOffsets(file), all: all}
	var err error
	if m.bytes, err = os.ReadFile(r.Path(file)); err != nil || len(m.bytes) < 92 {
		return nil
	}
	n := len(m.bytes)
	m.bitmap = int64(binary.LittleEndian.Uint64(m.bytes[44:]))
	m.index = int64(n) - 24 - int64(binary.LittleEndian.Uint64(m.bytes[n-24:]))
	return m
}

// span is where a part is.
func (m *image) span(part int) (lo, hi int64) {
	n := int64(len(m.bytes))
	switch {
	case part == 0:
		return 0, 64
	case part <= len(m.blocks):
		lo, hi = m.blocks[part-1], m.bitmap
		if part < len(m.blocks) {
			hi = m.blocks[part]
		}
		return
	case part == partSize:
		return m.bitmap, m.bitmap + 4
	case part == partBitmap:
		return m.bitmap + 4, m.index
	case part == partCount:
		return m.index, m.index + 4
	case part == partIndex:
		return m.index + 4, n - 24
	}
	return n - 24, n
}

// data is where the pairs of a block are.
func (m *image) data(part int) (lo, hi int64) {
	lo, hi = m.span(part)
	if part < 1 || part > len(m.blocks) {
		return
	}
	l := m.bytes[lo+64:]
	return lo + 64, lo + 64 + 16 + int64(binary.LittleEndian.Uint32(l[8:])) + int64(binary.LittleEndian.Uint32(l[12:]))
}

// parts in the order of their places.
func (m *image) parts() (ps []int) {
	for b := 0; b <= len(m.blocks); b++ {
		ps = append(ps, b)
	}
	return append(ps, partSize, partBitmap, partCount, partIndex, partMeta)
}

// fail is a failing operation on a part.
func (c *Ctx) fail(r *vb.Run, m *image, part int) *vb.OpFault {
	f := &vb.OpFault{Name: r.Path(m.file), Kind: "read", Mode: []string{"err", "part", "late"}[c.Intn(3)], Left: []int{1, 1, 2, 50}[c.Intn(4)]}
	switch part {
	case partOpen:
		f.Kind = "open"
	case partStat:
		f.Kind = "stat"
	case partClose:
		f.Kind = "close"
	default:
		lo, hi := m.data(part)
		if hi <= lo {
			hi = lo + 1
		}
		switch c.Intn(3) {
		case 0:
			f.At = lo
		case 1:
			f.At = hi - 1
		default:
			f.At = lo + c.Int63n(hi-lo)
		}
	}
	return f
}

// cutAt is a size at which the file ends within a part, and mostly before something that is needed.
func (c *Ctx) cutAt(m *image, part int) int64 {
	lo, hi := m.span(part)
	if part >= 1 && part <= len(m.blocks) && !c.Chance(4) {
		lo, hi = m.data(part)
	}
	switch c.Intn(4) {
	case 0:
		return lo
	case 1:
		return hi - 1
	}
	if hi <= lo {
		return lo
	}
	return lo + c.Int63n(hi-lo)
}

// readable writes a file of some blocks.  Block b of every file has ids from the same range.
func (c *Ctx) readable(r *vb.Run, file string, blocks int) *image {
	w := r.NewWriter(file, c.anyEnc(), []uint32{4096, 16384, 1 << 20}[c.Intn(3)])
	if w == nil {
		return nil
	}
	var all []uint64
	for b := 0; b < blocks; b++ {
		n := []int{1, 2 + c.Intn(10), 2 + c.Intn(10), 50 + c.Intn(100)}[c.Intn(4)]
		var ids []uint64
		vals := c.Vals(n, 99)
		if c.Chance(3) {
			ids = c.IDs(n, 99)
		} else {
			for i := 0; i < n; i++ {
				ids = append(ids, uint64(b*200+i*(1+c.Intn(2))+c.Intn(2)))
			}
			sortU(ids)
		}
		w.WriteBlock(ids, vals)
		all = append(all, ids...)
	}
	if w.Finalize(true) != "ok" {
		return nil
	}
	return imageOf(r, file, all)
}

/* Calls of a reader. */

const nReadCalls = 8

var readCallName = []string{"pairs", "dump", "bitmap", "caching", "scan", "filtered", "parallel", "multi"}

func (c *Ctx) readCall(rd *vb.Reader, m *image, kind, b int, f vb.Filter, mr *vb.Multi) {
	switch kind {
	case 0:
		rd.Pairs(uint64(b), c.Chance(2))
	case 1:
		rd.Dump(nil)
	case 2, 3:
		rd.Bitmap()
	case 4:
		rd.Aggregate(vb.AggOpts{Skip: true})
	case 5:
		if c.Chance(2) {
			rd.Aggregate(vb.AggOpts{Allow: f})
		} else {
			rd.Aggregate(vb.AggOpts{Deny: f})
		}
	case 6:
		rd.Aggregate(vb.AggOpts{Skip: true, Par: 2 + c.Intn(3), Allow: []vb.Filter{{}, f}[c.Intn(2)]})
	case 7:
		mr.Aggregate(c.Chance(2), []vb.Filter{{}, f}[c.Intn(2)])
	}
}

// calm makes every call, of a reader for which nothing fails.
func (c *Ctx) calm(rd *vb.Reader, m *image, f vb.Filter, mr *vb.Multi) {
	rd.Dump(nil)
	rd.Bitmap()
	rd.Aggregate(vb.AggOpts{})
	rd.Aggregate(vb.AggOpts{Skip: true})
	if mr != nil {
		mr.Aggregate(false, f)
	}
}

// noGC keeps finalizers from closing what the code leaves open.
func noGC() {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(4 << 30)
}

func failingReads(c *Ctx) {
	noGC()
	c.failOpen()
	c.failCalls()
	c.failCut()
	c.failClose()
	c.failTogether()
}

func (c *Ctx) failOpen() {
	for k := 0; k < c.N(6, 40); k++ {
		for _, part := range []int{0, partCount, partIndex, partMeta, partOpen, partStat} {
			c.Run(fmt.Sprintf("open-%d", part), readLabels, func(r *vb.Run) {
				vb.Watch(r.Path(""), false, nil)
				defer vb.Unwatch()
				m := c.readable(r, "f", c.Intn(4))
				if m == nil {
					return
				}
				for i := 0; i < 3; i++ {
					before := r.Descriptors()
					vb.FailOps(c.fail(r, m, part))
					rd := r.Open("f")
					vb.FailOps()
					if rd == nil {
						r.Fact("leak", "descriptors after opening failed", r.Descriptors()-before, 0)
						c.Stats["open.failed"]++
						rd = r.Open("f")
					}
					if rd == nil {
						return
					}
					c.calm(rd, m, vb.Filter{}, nil)
					rd.Close()
				}
			})
		}
	}
}

// several opens a collection of files.
func (c *Ctx) several(r *vb.Run, n int) (ms []*image, rds []*vb.Reader, all []uint64) {
	for i := 0; i < n; i++ {
		m := c.readable(r, fmt.Sprintf("f%d", i), 1+c.Intn(4))
		if m == nil {
			return nil, nil, nil
		}
		rd := r.Open(m.file)
		if rd == nil {
			return nil, nil, nil
		}
		ms, rds, all = append(ms, m), append(rds, rd), append(all, m.all...)
	}
	return
}

func (c *Ctx) failCalls() {
	for k := 0; k < c.N(12, 60); k++ {
		for kind := 0; kind < nReadCalls; kind++ {
			c.Run("call-"+readCallName[kind], readLabels, func(r *vb.Run) {
				vb.Watch(r.Path(""), false, nil)
				defer vb.Unwatch()
				ms, rds, all := c.several(r, 1+c.Intn(3))
				if ms == nil {
					return
				}
				mr := r.NewMulti(rds...)
				f := c.FilterNear(all)
				for i, m := range ms {
					if i > 0 && kind != 7 {
						break
					}
					if kind == 3 {
						rds[i].Caching(true)
					}
					for _, part := range append(m.parts()[1:len(m.blocks)+1], partSize, partBitmap) {
						b := part - 1
						if part > 100 {
							b = c.Intn(len(m.blocks))
						}
						vb.FailOps(c.fail(r, m, part))
						c.readCall(rds[i], m, kind, b, f, mr)
						if c.Chance(3) { // it goes on failing, or another one does
							vb.FailOps(c.fail(r, m, part))
							c.readCall(rds[i], m, kind, b, f, mr)
						}
						vb.FailOps()
						c.readCall(rds[i], m, kind, b, f, mr)
						if c.Chance(3) {
							c.calm(rds[i], m, f, mr)
						}
						if kind == 3 && c.Chance(2) {
							rds[i].Caching(false)
							rds[i].Caching(true)
						}
					}
				}
				for i, rd := range rds {
					c.calm(rd, ms[i], f, mr)
				}
			})
		}
	}
}

func (c *Ctx) failCut() {
	for k := 0; k < c.N(60, 300); k++ {
		c.Run("cut", readLabels, func(r *vb.Run) {
			vb.Watch(r.Path(""), false, nil)
			defer vb.Unwatch()
			ms, rds, all := c.several(r, 1+c.Intn(2))
			if ms == nil {
				return
			}
			mr := r.NewMulti(rds...)
			f := c.FilterNear(all)
			for i, m := range ms {
				for _, part := range m.parts() {
					if part > partBitmap || part == 0 && !c.Chance(4) {
						continue
					}
					rds[i].Caching(c.Chance(2))
					r.Cut(m.file, c.cutAt(m, part))
					for n := 2 + c.Intn(3); n > 0; n-- {
						b := c.Intn(len(m.blocks))
						if part >= 1 && part <= len(m.blocks) && c.Chance(2) {
							b = part - 1
						}
						c.readCall(rds[i], m, c.Intn(nReadCalls), b, f, mr)
					}
					if part >= 1 && part <= len(m.blocks) {
						rds[i].Pairs(uint64(part-1), false)
					} else {
						rds[i].Bitmap()
					}
					r.Restore(m.file, m.bytes)
					c.readCall(rds[i], m, c.Intn(nReadCalls), c.Intn(len(m.blocks)), f, mr)
					rds[i].Bitmap()
				}
				c.calm(rds[i], m, f, mr)
			}
		})
	}
}

func (c *Ctx) failClose() {
	for k := 0; k < c.N(50, 300); k++ {
		c.Run("close", readLabels, func(r *vb.Run) {
			vb.Watch(r.Path(""), false, nil)
			defer vb.Unwatch()
			ms, rds, all := c.several(r, 1+c.Intn(4))
			if ms == nil {
				return
			}
			mr := r.NewMulti(rds...)
			if c.Chance(3) {
				rds[0].Caching(true)
				rds[0].Bitmap()
			}
			var fs []*vb.OpFault
			for _, m := range ms {
				if c.Chance(3) {
					fs = append(fs, c.fail(r, m, partClose))
				}
			}
			vb.FailOps(fs...)
			if c.Chance(2) {
				if c.Chance(3) { // one of them is closed already
					rds[c.Intn(len(rds))].Close()
				}
				mr.Close()
			} else {
				for _, rd := range rds {
					rd.Close()
				}
			}
			vb.FailOps()
			r.Fact("leak", "descriptors after closing", r.Descriptors(), 0)
			f := c.FilterNear(all)
			for i := 0; i < 3; i++ { // closed readers
				j := c.Intn(len(rds))
				c.readCall(rds[j], ms[j], c.Intn(nReadCalls), c.Intn(len(ms[j].blocks)), f, mr)
			}
			for i, m := range ms {
				if rd := r.Open(m.file); rd != nil {
					c.calm(rd, ms[i], f, nil)
					rd.Close()
				}
			}
		})
	}
}

// failTogether: goroutines share a reader some of whose reads fail.
func (c *Ctx) failTogether() {
	for k := 0; k < c.N(30, 160); k++ {
		c.Run("together", readLabels, func(r *vb.Run) {
			vb.Watch(r.Path(""), false, nil)
			defer vb.Unwatch()
			ms, rds, all := c.several(r, 1)
			if ms == nil {
				return
			}
			rd, m := rds[0], ms[0]
			f := c.FilterNear(all)
			rd.Caching(c.Chance(2))
			for round := 0; round < 3; round++ {
				var fs []*vb.OpFault
				for _, part := range append(m.parts()[1:len(m.blocks)+1], partSize, partBitmap) {
					if c.Chance(3) {
						x := c.fail(r, m, part)
						x.Left = 1 + c.Intn(4)
						fs = append(fs, x)
					}
				}
				vb.FailOps(fs...)
				var wg sync.WaitGroup
				for g := 0; g < 3; g++ {
					x := *c
					x.Gen = vb.NewGen(c.Int63n(math.MaxInt64))
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < 4; i++ {
							x.readCall(rd, m, []int{0, 1, 2, 3, 4, 5}[x.Intn(6)], x.Intn(len(m.blocks)), f, nil)
						}
					}()
				}
				wg.Wait()
				vb.FailOps()
				c.calm(rd, m, f, nil)
				rd.Caching(c.Chance(2))
			}
		})
	}
}

/* Histories that TLC chose (spec/GenReads.tla). */

type readHist struct {
	Shape []int
	Calls []struct {
		Op   string
		F, B int
		Fail [][2]int
	}
}

func readPlay(c *Ctx) {
	var in struct {
		Mix   string
		Files []string
	}
	load(c.In, &in)
	noGC()
	labels := readLabels
	if in.Mix == "C22" {
		labels = heldLabels
	}
	for i, file := range in.Files {
		var h readHist
		load(file, &h)
		c.Run(fmt.Sprintf("reads-%d", i), labels, func(r *vb.Run) {
			c.readOne(r, &h, in.Mix == "C22")
		})
	}
}

func (c *Ctx) readOne(r *vb.Run, h *readHist, held bool) {
	vb.Watch(r.Path(""), false, nil)
	defer vb.Unwatch()
	n := len(h.Shape)
	ms, rds := make([]*image, n), make([]*vb.Reader, n)
	var all []uint64
	for i, blocks := range h.Shape {
		if ms[i] = c.readable(r, fmt.Sprintf("f%d", i), blocks); ms[i] == nil || len(ms[i].blocks) != blocks {
			return
		}
		all = append(all, ms[i].all...)
	}
	f := c.FilterNear(all)
	var mr *vb.Multi
	for _, call := range h.Calls {
		var fs []*vb.OpFault
		for _, x := range call.Fail {
			p := x[1]
			if p == partOpen && c.Chance(2) {
				p = partStat
			}
			fs = append(fs, c.fail(r, ms[x[0]-1], p))
		}
		i := call.F - 1
		var rd *vb.Reader
		if i >= 0 {
			rd = rds[i]
		}
		switch call.Op { // the specification's history can differ from the real one if a failing read does not matter
		case "cut":
			if ps := ms[i].parts(); rd != nil && call.B < len(ps) {
				r.Cut(ms[i].file, c.cutAt(ms[i], ps[call.B]))
			}
			continue
		case "restore":
			r.Restore(ms[i].file, ms[i].bytes)
			continue
		case "open":
			if rd != nil {
				mr = nil
				rds[i] = nil
				rd.Close()
			}
			before := r.Descriptors()
			vb.FailOps(fs...)
			if rds[i] = r.Open(ms[i].file); rds[i] == nil {
				r.Fact("leak", "descriptors after opening failed", r.Descriptors()-before, 0)
			}
			vb.FailOps()
			continue
		}
		whole := true
		for _, x := range rds {
			whole = whole && x != nil
		}
		if (call.Op == "multi" || call.Op == "closeall") && whole && mr == nil {
			mr = r.NewMulti(rds...)
		}
		if i >= 0 && rd == nil || i < 0 && !whole {
			continue
		}
		vb.FailOps(fs...)
		switch call.Op {
		case "pairs":
			rd.Pairs(uint64(call.B-1), c.Chance(2))
		case "bitmap":
			rd.Bitmap()
		case "agg":
			rd.Aggregate(vb.AggOpts{})
		case "scan":
			c.readCall(rd, ms[i], 4+c.Intn(3), 0, f, nil)
		case "multi":
			mr.Aggregate(c.Chance(2), []vb.Filter{{}, f}[c.Intn(2)])
		case "on", "off":
			rd.Caching(call.Op == "on")
		case "close":
			rd.Close()
		case "closeall":
			mr.Close()
			r.Fact("leak", "descriptors after closing", r.Descriptors(), 0)
		}
		vb.FailOps()
		if held && c.Chance(3) {
			r.Held()
		}
		for _, x := range fs {
			if x.Left < 1 || x.Left < 50 && x.Left != 2 {
				c.Stats[fmt.Sprintf("failed.%s", call.Op)]++
			}
		}
	}
	if held {
		for _, rd := range rds {
			if rd != nil {
				rd.Close()
			}
		}
		r.Held()
		return
	}
	for i, m := range ms { // all is well in the end
		r.Restore(m.file, m.bytes)
		if rds[i] != nil {
			rds[i].Close()
		}
		if rd := r.Open(m.file); rd != nil {
			c.calm(rd, m, f, nil)
			rd.Close()
		}
	}
}

/* The same with large blocks and bitmaps. */

func failingReadsLarge(c *Ctx) {
	for k := 0; k < c.N(24, 120); k++ {
		c.Large("large", readLabels, func(r *vb.Run) {
			vb.Watch(r.Path(""), false, nil)
			defer vb.Unwatch()
			rds, all := c.bigOverlap(r, 1+c.Intn(2))
			if rds == nil {
				return
			}
			mr := r.NewMulti(rds...)
			f := c.bigFilter(all)
			var ms []*image
			for i := range rds {
				m := imageOf(r, fmt.Sprint("f", i), all)
				if m == nil {
					return
				}
				ms = append(ms, m)
			}
			for n := 0; n < 4; n++ {
				i := c.Intn(len(rds))
				rd, m := rds[i], ms[i]
				rd.Caching(c.Chance(2))
				ps := append(m.parts()[1:len(m.blocks)+1], partBitmap, partBitmap)
				part := ps[c.Intn(len(ps))]
				kind, b := c.Intn(nReadCalls), part-1
				if part > 100 {
					kind, b = []int{2, 7}[c.Intn(2)], 0
				} else if kind == 2 || kind == 3 {
					kind = 0
				}
				if c.Chance(2) {
					vb.FailOps(c.fail(r, m, part))
					c.readCall(rd, m, kind, b, f, mr)
					vb.FailOps()
				} else {
					r.Cut(m.file, c.cutAt(m, part))
					c.readCall(rd, m, kind, b, f, mr)
					r.Restore(m.file, m.bytes)
				}
				c.readCall(rd, m, kind, b, f, mr)
			}
			for i, rd := range rds {
				c.calm(rd, ms[i], f, mr)
				rd.Close()
			}
		})
	}
}
