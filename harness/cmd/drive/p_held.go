//go:build osrec

package main

import (
	"fmt"
	"math"
	"os"
	"runtime"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"

	"verif/harness/vb"
)

/* What is in use between calls: open files, goroutines, memory (C22). */

func init() { profiles["C22"] = heldAll }

var heldLabels = []string{"held"}

func heldAll(c *Ctx) {
	noGC()
	c.heldLives()
	c.heldReaders()
	c.heldFaults()
	c.heldBad()
	c.heldWorkers()
	c.heldMany()
	c.heldMemory()
}

// heldLives: writers, readers and collections at once, in any order, with calls that are refused.
func (c *Ctx) heldLives() {
	for k := 0; k < c.N(240, 1500); k++ {
		c.Run("lives", heldLabels, func(r *vb.Run) {
			vb.Watch(r.Path(""), false, nil)
			defer vb.Unwatch()
			type item struct {
				w  *vb.Writer
				s  *vb.Simple
				rd *vb.Reader
				f  string
			}
			var live []item
			var done []string
			var all []uint64
			next := 0
			drop := func(i int) { live = append(live[:i], live[i+1:]...) }
			for n := 10 + c.Intn(25); n > 0; n-- {
				ids, vals := c.pairs(1+c.Intn(20), 99, 99)
				switch x := c.Intn(10); {
				case x < 2 || len(live) == 0:
					f := fmt.Sprint("f", next)
					next++
					if c.Chance(6) {
						f = "nowhere/" + f
					}
					if c.Chance(2) {
						if w := r.NewWriter(f, c.anyEnc(), c.Target()); w != nil {
							live = append(live, item{w: w, f: f})
						}
					} else if s := r.NewSimple(f, c.anyEnc(), c.Target()); s != nil {
						live = append(live, item{s: s, f: f})
					}
				case x < 4 && next > 0:
					f := fmt.Sprint("f", c.Intn(next+1)) // which may be unfinished or missing
					if len(done) > 0 && c.Chance(2) {
						f = done[c.Intn(len(done))]
					}
					if rd := r.Open(f); rd != nil {
						live = append(live, item{rd: rd, f: f})
					}
				case x == 4:
					var rds []*vb.Reader
					for _, it := range live {
						if it.rd != nil && c.Chance(2) {
							rds = append(rds, it.rd)
						}
					}
					m := r.NewMulti(rds...)
					m.Aggregate(c.Chance(2), vb.Filter{})
					if len(all) > 0 {
						m.Aggregate(c.Chance(2), c.FilterNear(all))
					}
					if c.Chance(2) {
						m.Close()
						for i := len(live) - 1; i >= 0; i-- {
							for _, rd := range rds {
								if live[i].rd == rd {
									drop(i)
									break
								}
							}
						}
					}
				default:
					i := c.Intn(len(live))
					it := live[i]
					switch {
					case it.w != nil:
						switch c.Intn(8) {
						case 0:
							it.w.WriteBlock(ids, vals[:len(vals)-1])
						case 1:
							it.w.Estimate(ids, vals)
						case 2:
							it.w.Finalize(false)
						case 3:
							if c.Chance(2) {
								it.w.Finalize(false)
							}
							it.w.Close()
							drop(i)
						case 4:
							if it.w.Finalize(true) == "ok" {
								done = append(done, it.f)
								drop(i)
							}
							if c.Chance(3) {
								it.w.Close() // again
							}
						default:
							it.w.WriteAll(ids, vals)
							all = append(all, ids...)
						}
					case it.s != nil:
						switch c.Intn(5) {
						case 0:
							it.s.Write(ids, vals[1:])
						case 1:
							if it.s.Close() == "ok" {
								done = append(done, it.f)
								drop(i)
							}
						default:
							it.s.Write(ids, vals)
							all = append(all, ids...)
						}
					default:
						switch c.Intn(8) {
						case 0:
							it.rd.Close()
							drop(i)
						case 1:
							it.rd.Caching(c.Chance(2))
						case 2:
							it.rd.Bitmap()
						case 3:
							it.rd.Pairs(uint64(c.Intn(4)), true)
						case 4:
							it.rd.Dump(nil)
						case 5:
							it.rd.Aggregate(vb.AggOpts{Skip: c.Chance(2), Par: c.Intn(5) - 1})
						case 6:
							if len(all) > 0 {
								it.rd.Aggregate(vb.AggOpts{Par: c.Intn(5) - 1, Allow: c.FilterNear(all)})
								it.rd.Iterator(c.FilterNear(all), vb.Filter{})
							}
						case 7:
							it.rd.Describe()
						}
					}
				}
				if c.Chance(2) {
					r.Held()
				}
			}
			for _, it := range live {
				switch {
				case it.w != nil:
					it.w.Finalize(true)
				case it.s != nil:
					it.s.Close()
				default:
					it.rd.Close()
				}
			}
			r.Held()
		})
	}
}

// heldReaders: a reader of a file with any number of blocks, none among them, is used in any way and closed.
func (c *Ctx) heldReaders() {
	for k := 0; k < c.N(30, 200); k++ {
		c.Run("readers", heldLabels, func(r *vb.Run) {
			vb.Watch(r.Path(""), false, nil)
			defer vb.Unwatch()
			for blocks := 0; blocks < 4; blocks++ {
				f := fmt.Sprint("f", blocks)
				var all []uint64
				w := r.NewWriter(f, c.anyEnc(), 4096)
				for b := 0; b < blocks; b++ {
					ids, vals := c.pairs(1+c.Intn(4), 99, 99)
					w.WriteBlock(ids, vals)
					all = append(all, ids...)
				}
				w.Finalize(true)
				for n := 0; n < 4; n++ {
					rd := r.Open(f)
					if c.Chance(2) {
						rd.Caching(true)
					}
					for u := c.Intn(4); u > 0; u-- {
						switch c.Intn(6) {
						case 0, 1:
							rd.Bitmap()
						case 2:
							rd.Pairs(uint64(c.Intn(blocks+1)), true)
						case 3:
							rd.Aggregate(vb.AggOpts{Skip: c.Chance(2), Par: c.Intn(5) - 1})
						case 4:
							if len(all) > 0 {
								rd.Iterator(c.FilterNear(all), vb.Filter{})
							} else {
								rd.Describe()
							}
						case 5:
							rd.Caching(c.Chance(2))
						}
					}
					if c.Chance(2) {
						r.Held()
					}
					rd.Close()
					r.Held()
				}
			}
		})
	}
}

// heldFaults: an operation of a life fails, whichever it is, and everything is closed.
func (c *Ctx) heldFaults() {
	for k := 0; k < c.N(500, 4000); k++ {
		c.Run("fault", heldLabels, func(r *vb.Run) {
			vb.Watch(r.Path(""), false, nil)
			defer vb.Unwatch()
			at, n := 1+c.Intn(75), 1
			if c.Chance(3) {
				at = 1 + c.Intn(12)
			}
			if c.Chance(4) {
				n = 1 + c.Intn(20)
			}
			vb.Fault(at, n, faultModes[c.Intn(len(faultModes))])
			check := func() {
				if c.Chance(2) {
					r.Held()
				}
			}
			if c.Chance(2) {
				if w := r.NewWriter("f", c.anyEnc(), 4096); w != nil {
					for b := c.Intn(3); b > 0; b-- {
						ids, vals := c.pairs(1+c.Intn(4), 99, 99)
						w.WriteBlock(ids, vals)
						check()
					}
					if w.Finalize(c.Chance(2)) != "ok" && c.Chance(2) {
						check()
						w.Finalize(true)
					}
					if n < 20 || c.Chance(2) {
						vb.NoFault()
					}
					w.Close()
				}
			} else if s := r.NewSimple("f", c.anyEnc(), 4096); s != nil {
				for b := c.Intn(3); b > 0; b-- {
					ids, vals := c.pairs(1+c.Intn(4), 99, 99)
					s.Write(ids, vals)
					check()
				}
				ok := s.Close()
				for i := 0; i < 3 && ok != "ok"; i++ {
					check()
					vb.NoFault()
					ok = s.Close()
				}
			}
			if vb.NoFault() != "" {
				c.Stats["faults"]++
			}
			r.Held()
			if rd := r.Open("f"); rd != nil {
				rd.Dump(nil)
				rd.Close()
			}
			r.Held()
		})
		c.Run("readfault", heldLabels, func(r *vb.Run) {
			vb.Watch(r.Path(""), false, nil)
			defer vb.Unwatch()
			ms, rds, all := c.several(r, 1+c.Intn(3))
			if ms == nil {
				return
			}
			f := c.FilterNear(all)
			mr := r.NewMulti(rds...)
			for n := 1 + c.Intn(4); n > 0; n-- {
				i := c.Intn(len(ms))
				ps := append(ms[i].parts(), partOpen, partStat, 0, partCount, partIndex, partMeta)
				part := ps[c.Intn(len(ps))]
				vb.FailOps(c.fail(r, ms[i], part))
				if c.Chance(2) {
					if rd := r.Open(ms[i].file); rd != nil {
						c.readCall(rd, ms[i], c.Intn(7), c.Intn(len(ms[i].blocks)), f, nil)
						if c.Chance(2) {
							vb.FailOps(c.fail(r, ms[i], partClose))
						}
						rd.Close()
					}
				} else {
					c.readCall(rds[i], ms[i], c.Intn(nReadCalls), c.Intn(len(ms[i].blocks)), f, mr)
				}
				vb.FailOps()
				if c.Chance(2) {
					r.Held()
				}
			}
			var fs []*vb.OpFault
			for _, m := range ms {
				if c.Chance(2) {
					fs = append(fs, c.fail(r, m, partClose))
				}
			}
			vb.FailOps(fs...)
			if c.Chance(2) {
				mr.Close()
			} else {
				for _, rd := range rds {
					rd.Close()
				}
			}
			vb.FailOps()
			r.Held()
		})
	}
}

// bad returns files that are no column files.
func (c *Ctx) bad(img []byte) (out [][]byte) {
	edit := func(at int, b byte) []byte {
		x := append([]byte{}, img...)
		if at < 0 {
			at += len(x)
		}
		x[at] ^= b
		return x
	}
	n := len(img)
	return [][]byte{nil, img[:1], img[:23], img[:24], img[:63], img[:64], img[:n-1], img[:n-24], img[:n/2], edit(0, 1), edit(7, 0x80),
		edit(8, 2), edit(-1, 1), edit(-8, 1), edit(-24, 1), edit(-17, 0x80), edit(-20, 1), append(append([]byte{}, img...), 0),
		append(append([]byte{}, img...), img...)[:n+64], make([]byte, 100), make([]byte, 5000)}
}

func (c *Ctx) heldBad() {
	for k := 0; k < c.N(4, 20); k++ {
		c.Run("bad", heldLabels, func(r *vb.Run) {
			c.smallFile(r, "f", c.anyEnc(), c.Intn(4), 10)
			img, err := os.ReadFile(r.Path("f"))
			if err != nil {
				panic(err)
			}
			for i, b := range c.bad(img) {
				name := fmt.Sprintf("x-%d", i)
				if os.WriteFile(r.Path(name), b, 0o644) != nil {
					panic("cannot write")
				}
				for j := 0; j < 2; j++ {
					if rd := r.Open(name); rd != nil {
						rd.Close()
					}
				}
				r.Held()
				if c.Chance(3) { // and one is replaced
					name = fmt.Sprint("y", i)
					if os.WriteFile(r.Path(name), b, 0o644) != nil {
						panic("cannot write")
					}
					if c.Chance(2) {
						if w := r.NewWriter(name, 0, 4096); w != nil {
							w.Close()
						}
					} else if s := r.NewSimple(name, 0, 4096); s != nil {
						s.Close()
					}
					r.Held()
				}
			}
			os.Mkdir(r.Path("x-dir"), 0o755)
			os.Symlink("x-loop", r.Path("x-loop"))
			for _, name := range []string{"x-dir", "x-loop", "x-none", "f/x", "x-nodir/none"} {
				if rd := r.Open(name); rd != nil {
					rd.Close()
				}
				if name != "x-none" {
					if w := r.NewWriter(name, 0, 4096); w != nil {
						w.Close()
					}
					if s := r.NewSimple(name, 0, 4096); s != nil {
						s.Close()
					}
				}
			}
			r.Held()
		})
	}
}

// heldWorkers: goroutines of parallel aggregations, some of whose reads fail.
func (c *Ctx) heldWorkers() {
	for k := 0; k < c.N(60, 300); k++ {
		c.Run("workers", heldLabels, func(r *vb.Run) {
			vb.Watch(r.Path(""), false, nil)
			defer vb.Unwatch()
			m := c.readable(r, "f", 1+c.Intn(9))
			if m == nil {
				return
			}
			rd := r.Open("f")
			if rd == nil {
				return
			}
			for n := 0; n < 5; n++ {
				o := vb.AggOpts{Skip: c.Chance(2), Par: []int{2, 3, 4, 7, 9, 64, -1, math.MaxInt32}[c.Intn(8)]}
				if c.Chance(2) {
					o.Allow = c.FilterNear(m.all)
				}
				if c.Chance(3) {
					o.Deny = c.FilterNear(m.all)
				}
				if c.Chance(8) {
					o.Allow = vb.FilterOf()
				}
				var fs []*vb.OpFault
				for c.Chance(2) {
					fs = append(fs, c.fail(r, m, 1+c.Intn(len(m.blocks))))
				}
				vb.FailOps(fs...)
				rd.Aggregate(o)
				vb.FailOps()
				r.Held()
			}
			rd.Close()
			rd.Aggregate(vb.AggOpts{Skip: true, Par: 4})
			r.Held()
		})
	}
}

// heap is the memory in use.
func heap() int64 {
	var s runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&s)
	return int64(s.HeapAlloc)
}

// heldMany: the same thing very often.
func (c *Ctx) heldMany() {
	c.Run("many", heldLabels, func(r *vb.Run) {
		c.smallFile(r, "f", c.anyEnc(), 3, 10)
		img, _ := os.ReadFile(r.Path("f"))
		bad := c.bad(img)
		rounds, before := c.N(3000, 30000), int64(0)
		for i := 0; i < rounds; i++ {
			b := bad[i%len(bad)]
			if i == 200 {
				before = heap()
			}
			w := r.Path(fmt.Sprintf("x-w%d", i)) // a name only once
			os.WriteFile(w, b, 0o644)
			r.TryOpen(w)
			if r.TryOpen(r.Path("f")) != "ok" {
				r.Fact("held", "a file that can be opened can be opened again and again", i, "forever")
				break
			}
			if r.Do("opening and closing", func() {
				if rd, err := col.NewReader(r.Path("f")); err == nil {
					multicol.NewMultiReader([]*col.Reader{rd}).Close()
				}
				if w, err := col.NewWriter(w); err == nil {
					w.Close()
				}
				if w, err := col.NewSimpleWriter(w); err == nil {
					w.Close()
				}
			}) {
				r.Fact("held", "files can be opened and closed again and again", i, "forever")
				break
			}
			os.Remove(w)
		}
		last := heap() - before
		c.Stats["memory.kept.many.kB"] = int(last >> 10)
		r.Fact("held", "memory does not grow with the number of files opened", last < 3<<20+int64(rounds)*200, true)
		r.Held()
	})
}

// heldMemory: files are written, read in every way and closed again and again.
func (c *Ctx) heldMemory() {
	c.Run("memory", heldLabels, func(r *vb.Run) {
		const n, blocks = 6000, 3
		ids, vals := make([]uint64, n), make([]int64, n)
		once := func(i int) {
			f := r.Path(fmt.Sprintf("x-%d", i)) // a name only once
			defer os.Remove(f)
			for k := range ids { // far from each other: the bitmaps are large
				ids[k], vals[k] = uint64(i*n+k)<<16+uint64(k), int64(i+k)
			}
			if i%2 == 0 {
				w, err := col.NewWriter(f, col.WithBlockSize(1<<20))
				if err != nil {
					return
				}
				for b := 0; b < blocks; b++ {
					w.WriteBlock(ids, vals)
				}
				w.FinalizeAndClose()
			} else {
				w, err := col.NewSimpleWriter(f, col.WithBlockSize(1<<20))
				if err != nil {
					return
				}
				w.Write(ids, vals)
				w.Close()
			}
			rd, err := col.NewReader(f)
			if err != nil {
				return
			}
			rd.EnableGlobalIDBitmapCaching()
			g, _ := rd.GetGlobalIDBitmap()
			for b := uint64(0); b < rd.BlockCount(); b++ {
				rd.GetPairs(b)
			}
			for par := 0; par < 3; par++ {
				rd.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true, Parallel: par})
				rd.AggregateWithOptions(col.AggregateOptions{Filter: g, Parallel: par})
			}
			m := multicol.NewMultiReader([]*col.Reader{rd})
			m.Aggregate(multicol.AggregateOptions{Filter: g})
			m.Close()
		}
		life := func(i int) {
			if r.Do("a file is written and read", func() { once(i) }) {
				r.Fact("held", "files can be written and read again and again", i, "forever")
			}
		}
		life(0)
		life(1)
		before := heap()
		rounds := c.N(240, 1200)
		var last int64
		for i := 0; i < rounds; i++ {
			life(i)
			if i%40 == 39 {
				runtime.GC()
			}
		}
		last = heap() - before
		c.Stats["memory.kept.kB"] = int(last >> 10)
		// Each life is worth more than 300 kB in memory.
		r.Fact("held", "memory does not grow with the number of files closed", last < 6<<20+int64(rounds)*10<<10, true)
		r.Held()
	})
}
