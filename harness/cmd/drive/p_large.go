package main

import (
	"fmt"
	"math"
	"sync"

	"verif/harness/vb"
)

/* Blocks, batches and files of tens of thousands to a million pairs, and files of very many blocks: the
columns consist of arithmetic progressions, so that traces record them compressed (spec/Runs.tla). */

func init() {
	for k, f := range map[string]func(*Ctx){"C01": largeBlocks, "C02": largeTargets, "C03": largeBatches, "C04": largeAggs, "C05": largeFilters,
		"C06": largeParallel, "C07": largeMulti, "C08": largeBitmaps, "C12": largeShared, "C13": largeRejects, "C16": largeNothing,
		"C17": largePure, "C19": largeApart} {
		profiles[k+"large"] = f
	}
	for _, k := range []string{"C05", "C06", "C08", "C20", "C13", "C16"} {
		profiles[k+"bulk"] = bulkProfile(k)
	}
}

// Large is Run with compressed columns.
func (c *Ctx) Large(name string, labels []string, f func(r *vb.Run)) {
	c.Run(name, labels, func(r *vb.Run) {
		r.Compress = true
		f(r)
	})
}

const (
	bigSet    = iota // increasing, consecutive but for some gaps
	bigStride        // increasing in larger steps
	bigDups          // as bigSet, with some ids repeated
	bigMixed         // pieces in any direction and order
	nBig
)

// bigIDs draws n ids.
func (c *Ctx) bigIDs(n, kind int) []uint64 {
	ids := make([]uint64, 0, n)
	x := []uint64{0, 1, 65530, 1<<32 - uint64(n)/2, 1 << 40, 1<<48 - uint64(n)/3, 1<<63 - uint64(n)/2, math.MaxUint64 - 3*uint64(n) - 1<<22}[c.Intn(8)]
	pieces := 1 + c.Intn(5)
	if kind == bigDups {
		pieces = 10 + c.Intn(20)
	}
	for p := pieces; p > 0; p-- {
		k := (n - len(ids)) / p
		if p > 1 && k > 2 {
			k = 1 + c.Intn(2*k-2)
		}
		switch kind {
		case bigSet, bigDups:
			for i := 0; i < k; i++ {
				ids = append(ids, x+uint64(i))
			}
			x += uint64(k) + uint64([]int{0, 1, 100, 65536}[c.Intn(4)])
			if kind == bigDups && p > 1 && len(ids) > 0 {
				for i := c.Intn(3); i >= 0 && len(ids) < n; i-- {
					ids = append(ids, ids[len(ids)-1])
				}
				x = max(x, ids[len(ids)-1]) // not decreasing
			}
		case bigStride:
			d := []uint64{1, 2, 3, 127, 200, 20000, 1<<21 + 1, 1 << 30}[c.Intn(8)]
			d = c.narrow(n, d)
			if left := (math.MaxUint64 - x) / uint64(n) / 2; d > left {
				d = 1
			}
			for i := 0; i < k; i++ {
				ids = append(ids, x)
				x += d
			}
		case bigMixed:
			x = []uint64{uint64(c.Intn(1 << 20)), c.Uint64(), 1 << 33, 1 << 52}[c.Intn(4)]
			d := c.narrow(n, []uint64{1, 1, 5, 1 << 20, 1 << 44, 0}[c.Intn(6)])
			if c.Chance(3) {
				d = -d
			}
			for i := 0; i < k; i++ {
				ids = append(ids, x)
				x += d
			}
		}
	}
	for len(ids) < n {
		x++
		ids = append(ids, x)
	}
	return ids
}

// narrow is a step at which n ids do not spread over too many bitmap containers.
func (c *Ctx) narrow(n int, d uint64) uint64 {
	if n > 2000 && d > uint64(2000<<16/n) {
		return uint64(1 + c.Intn(2000<<16/n))
	}
	return d
}

func (c *Ctx) bigVals(n int) []int64 {
	vals := make([]int64, 0, n)
	for p := 1 + c.Intn(4); p > 0; p-- {
		k := n - len(vals)
		if p > 1 {
			k = c.Intn(k/p + 1)
		}
		x := []int64{0, 1, -1, -int64(k) / 2, 1 << 33, -(1 << 40), math.MaxInt64 - 5, math.MinInt64 + 3, int64(c.Uint64()), math.MinInt64}[c.Intn(10)]
		d := []int64{0, 1, -1, 3, -77, 1 << 20, -(1 << 33), 1 << 44}[c.Intn(8)]
		for i := 0; i < k; i++ {
			vals = append(vals, x)
			x += d
		}
	}
	return vals
}

func (c *Ctx) bigPairs(n, kind int) ([]uint64, []int64) { return c.bigIDs(n, kind), c.bigVals(n) }

// bigFilter draws a filter of few intervals and ids around the given ids.
func (c *Ctx) bigFilter(ids []uint64) vb.Filter {
	f := vb.Filter{Has: true}
	some := func() uint64 {
		if len(ids) == 0 {
			return uint64(c.Intn(1000))
		}
		return ids[c.Intn(len(ids))]
	}
	iv := func(a, b uint64) {
		if a > b {
			a, b = b, a
		}
		if b-a > 300000 {
			b = a + uint64(c.Intn(300000))
		}
		f.Ivs = append(f.Ivs, [2]uint64{a, b})
	}
	switch c.Intn(8) {
	case 0:
		return vb.NoFilter
	case 1:
	case 2, 3:
		for i := 1 + c.Intn(40); i > 0; i-- {
			f.IDs = append(f.IDs, some())
		}
	case 4:
		iv(some(), some())
	case 5:
		for i := 1 + c.Intn(5); i > 0; i-- {
			x := some()
			iv(x, x+min(uint64(c.Intn(5000)), math.MaxUint64-x))
		}
	case 6: // around the ends
		if len(ids) > 0 {
			for _, x := range []uint64{ids[0], ids[len(ids)-1]} {
				if c.Chance(2) {
					f.IDs = append(f.IDs, x+uint64(c.Intn(3))-1)
				}
			}
		}
	case 7: // everything, as far as it goes
		if len(ids) > 0 {
			iv(ids[0], ids[len(ids)-1])
		}
	}
	return f
}

// bigFile writes a file of blocks of n pairs or so.
func (c *Ctx) bigFile(r *vb.Run, file string, enc uint32, kind int, sizes ...int) (all []uint64) {
	w := r.NewWriter(file, enc, math.MaxUint32)
	for _, n := range sizes {
		ids, vals := c.bigPairs(n, kind)
		all = append(all, ids...)
		w.WriteBlock(ids, vals)
	}
	w.Finalize(true)
	return
}

func (c *Ctx) bigSizes() (sizes []int) {
	for b := 1 + c.Intn(4); b > 0; b-- {
		sizes = append(sizes, []int{1 + c.Intn(20), 1000 + c.Intn(3000), 4097 + c.Intn(9000), 16000 + c.Intn(50000), 65530 + c.Intn(12)}[c.Intn(5)])
	}
	return
}

/* ------------------------------- C01 ----------------------------------- */

func largeBlocks(c *Ctx) {
	labels := []string{"write", "open", "dump", "pairs"}
	for enc := uint32(0); enc < 8; enc++ {
		for kind := 0; kind < nBig; kind++ {
			c.Large(fmt.Sprintf("block-%d-%d", enc, kind), labels, func(r *vb.Run) {
				c.bigFile(r, "f", enc, kind, c.bigSizes()...)
				c.readBack(r, "f")
			})
		}
		// Sections of more than 1, 2 and 4 MiB.
		for k := 0; k < c.N(1, 4); k++ {
			c.Large(fmt.Sprintf("section-%d", enc), labels, func(r *vb.Run) {
				c.bigFile(r, "f", enc, []int{bigStride, bigStride, bigMixed}[c.Intn(3)], 400000+c.Intn(600000))
				c.readBack(r, "f")
			})
		}
	}
	// Words of every width, in sections of more than a MiB.
	for g := 1; g < 10; g++ {
		c.Large(fmt.Sprintf("width-%d", g), labels, func(r *vb.Run) {
			for _, enc := range []uint32{4, 5, 6, 7} {
				n := 1100000/(g+1) + c.Intn(50000)
				d := uint64(1)<<(7*g) + 3
				step := c.narrow(n, d)
				ids, vals := make([]uint64, n), make([]int64, n)
				for i := range ids {
					ids[i], vals[i] = d+uint64(i), -int64(d/2)-int64(i) // the words themselves
					if enc != 4 {
						ids[i], vals[i] = uint64(i)*step, int64(uint64(i)*(min(d, 1<<44)/2)) // the differences
					}
				}
				f := fmt.Sprint("f", enc)
				w := r.NewWriter(f, enc, math.MaxUint32)
				w.WriteBlock(ids, vals)
				w.Finalize(true)
				c.readBack(r, f)
			}
		})
	}
}

/* ------------------------------- C02 ----------------------------------- */

func largeTargets(c *Ctx) {
	labels := []string{"pack", "est", "write", "cap"}
	targets := []uint32{1<<31 - 4097, 1<<31 - 1, 1 << 31, 1<<31 + 4096, 1<<32 - 4096, math.MaxUint32}
	for i, t := range targets {
		c.Large(fmt.Sprint("target-", i), labels, func(r *vb.Run) {
			w := r.NewWriter("f", c.anyEnc(), t)
			for k := 0; k < 3; k++ {
				ids, vals := c.bigPairs([]int{2 + c.Intn(600), 1000 + c.Intn(20000), 100000 + c.Intn(100000)}[k], c.Intn(nBig))
				w.Estimate(ids, vals)
				w.WriteBlock(ids, vals)
			}
			w.Finalize(true)
			s := r.NewSimple("s", c.anyEnc(), 4096)
			s.SetTarget(int(t))
			ids, vals := c.bigPairs(900+c.Intn(5000), bigSet)
			s.Write(ids, vals)
			s.Close()
			if rd := r.Open("s"); rd != nil {
				rd.Dump(s)
				rd.Close()
			}
		})
	}
	// Far from the beginning of the file.
	c.Large("far", labels, func(r *vb.Run) {
		w := r.NewWriter("f", 4, 1<<31)
		for q := 0; q < 3; q++ {
			n := 900000 // 20 bytes each
			ids, vals := make([]uint64, n), make([]int64, n)
			for i := range ids {
				ids[i], vals[i] = math.MaxUint64-uint64(n-i), math.MinInt64+int64(i)
			}
			w.WriteBlock(ids, vals)
			for _, pages := range []int{1, 2, 5} { // four bytes each
				for d := -18; d <= 1; d++ {
					m := (4096*pages-144)/4 + d
					ids, vals := make([]uint64, m), make([]int64, m)
					for i := range ids {
						ids[i], vals[i] = uint64(300+i), int64(64+i)
					}
					w.Estimate(ids, vals)
					if c.Chance(10) {
						w.WriteBlock(ids, vals)
					}
				}
			}
		}
		w.Finalize(true)
	})
	// The longest prefix that fits has thousands of pairs.
	for enc := uint32(0); enc < 8; enc++ {
		for k := 0; k < c.N(2, 8); k++ {
			c.Large(fmt.Sprintf("prefix-%d", enc), labels, func(r *vb.Run) {
				pages := 3 + c.Intn(6)
				if enc < 4 {
					pages *= 3
				}
				t := uint32(4096*pages - []int{0, 1, 64, 63, 65}[c.Intn(5)])
				w := r.NewWriter("f", enc, t)
				ids, vals := c.bigPairs(5000+c.Intn(60000), c.Intn(nBig))
				for q := 0; q < 3 && len(ids) > 0; q++ {
					w.Estimate(ids, vals)
					o, n := w.WriteBlock(ids, vals)
					if o != "full" || n <= 0 || n > len(ids) {
						break
					}
					ids, vals = ids[n:], vals[n:]
				}
				w.Finalize(true)
			})
		}
	}
}

/* ------------------------------- C03 ----------------------------------- */

// permute reorders a batch.
func (c *Ctx) permute(ids []uint64, vals []int64) {
	n := len(ids)
	swap := func(i, j int) { ids[i], ids[j], vals[i], vals[j] = ids[j], ids[i], vals[j], vals[i] }
	switch c.Intn(6) {
	case 0:
		for i := 0; i < n/2; i++ {
			swap(i, n-1-i)
		}
	case 1, 2:
		c.Shuffle(n, swap)
	case 3: // one pair out of place
		for i := c.Intn(n); i > 0; i-- {
			swap(i, i-1)
		}
	case 4: // halves
		for i := 0; i < n/2; i++ {
			swap(i, i+n/2)
		}
	case 5: // the last two
		if n > 1 {
			swap(n-1, n-2)
		}
	}
}

func largeBatches(c *Ctx) {
	labels := []string{"write", "open", "sdump", "stotal", "argsame"}
	// Largest ids and spans of every width.
	for bits := 13; bits <= 64; bits++ {
		c.Large(fmt.Sprint("bits-", bits), labels, func(r *vb.Run) {
			s := r.NewSimple("f", c.anyEnc(), 16384)
			for b := 0; b < 3; b++ {
				n := 4097 + c.Intn(2000)
				ids := make([]uint64, n)
				for i := range ids {
					ids[i] = 1<<bits - uint64(n) + uint64(i)
				}
				if bits == 13 || b == 1 { // far apart
					for i := range ids[:n/2] {
						ids[i] = uint64(i)
					}
				}
				if b == 2 && bits > 13 { // over the whole range: lower bits in another order
					d := (1<<(bits-1) - 1) / uint64(n) * 2
					for i := range ids {
						ids[i] = uint64(i+1) * d
					}
				}
				vals := c.bigVals(n)
				c.Shuffle(n, func(i, j int) { ids[i], ids[j], vals[i], vals[j] = ids[j], ids[i], vals[j], vals[i] })
				s.Write(ids, vals)
			}
			s.Close()
			if rd := r.Open("f"); rd != nil {
				rd.Dump(s)
				rd.Close()
			}
		})
	}
	for k := 0; k < c.N(30, 160); k++ {
		c.Large("batches", labels, func(r *vb.Run) {
			s := r.NewSimple("f", c.anyEnc(), []uint32{4096, 16384, 65536, 1 << 20, math.MaxUint32}[c.Intn(5)])
			for b := 1 + c.Intn(4); b > 0; b-- {
				n := []int{1 + c.Intn(900), 1000 + c.Intn(3000), 4090 + c.Intn(12), 5000 + c.Intn(12000)}[c.Intn(4)]
				ids := c.bigIDs(n, []int{bigSet, bigSet, bigStride}[c.Intn(3)])
				if c.Chance(2) { // the largest id decides how many bytes or bits count
					bits, less := 16+c.Intn(48), uint64(c.Intn(2)*n/2)
					for i := range ids {
						ids[i] = uint64(i) + 1<<bits - less
					}
					if c.Chance(2) { // both ends of the range
						for i := range ids[:n/2] {
							ids[i] = uint64(i)
						}
					}
				}
				vals := c.bigVals(n)
				c.permute(ids, vals)
				s.Write(ids, vals)
			}
			s.Close()
			if rd := r.Open("f"); rd != nil {
				rd.Dump(s)
				rd.Close()
			}
		})
	}
	c.tiedBatches(labels)
}

// Large batches in which ids occur several times, with equal and different values.
func (c *Ctx) tiedBatches(labels []string) {
	for k := 0; k < c.N(16, 80); k++ {
		c.Large("ties", labels, func(r *vb.Run) {
			s := r.NewSimple("f", c.anyEnc(), []uint32{16384, 65536, math.MaxUint32}[c.Intn(3)])
			s.Ties = true
			for b := 1 + c.Intn(2); b > 0; b-- {
				n := []int{1000 + c.Intn(3000), 4096 + c.Intn(4096), 16384 + c.Intn(2000), 20000, 33000, 66000}[(k+b)%6]
				ids, vals := make([]uint64, n), make([]int64, n)
				per, base := []int{2, 8, 100, n / 2}[c.Intn(4)], c.Uint64()>>uint(1+c.Intn(40))
				kinds := 1 + c.Intn(4)
				for i := range ids {
					ids[i] = base + uint64(i/per)
					vals[i] = int64(c.Intn(kinds)) * 1000
					if i%per > 3 && per > 8 { // few runs
						vals[i] = vals[i-i%per+1]
					}
				}
				switch c.Intn(4) {
				case 0: // as they are: the values of an id in any order
				case 1:
					for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
						ids[i], ids[j], vals[i], vals[j] = ids[j], ids[i], vals[j], vals[i]
					}
				default:
					c.permute(ids, vals)
				}
				s.Write(ids, vals)
			}
			s.Close()
			if rd := r.Open("f"); rd != nil {
				rd.Dump(s)
				rd.Close()
			}
		})
	}
}

/* ---------------------------- C04, C05, C06 ----------------------------- */

func largeAggs(c *Ctx) {
	labels := []string{"write", "open", "dump", "aggm", "aggs", "aggp"}
	for k := 0; k < c.N(40, 160); k++ {
		c.Large("aggs", labels, func(r *vb.Run) {
			c.bigFile(r, "f", uint32(k%8), c.Intn(nBig), c.bigSizes()...)
			if rd := r.Open("f"); rd != nil {
				for q := 0; q < 2; q++ {
					rd.Aggregate(vb.AggOpts{})
					rd.Aggregate(vb.AggOpts{Skip: true})
					rd.Aggregate(vb.AggOpts{Skip: c.Chance(2), Par: 1 + c.Intn(9)})
				}
				rd.Dump(nil)
				rd.Close()
			}
		})
	}
}

func largeFilters(c *Ctx) {
	labels := []string{"write", "open", "dump", "aggf", "iter", "aggp", "nomut"}
	// Few or many ids of large blocks of every kind.
	for kind := 0; kind < nBig; kind++ {
		for _, n := range []int{1500, 2100, 4200, 9000, 33000, 66000} {
			c.Large(fmt.Sprintf("some-%d-%d", kind, n), labels, func(r *vb.Run) {
				ids := c.bigFile(r, "f", c.anyEnc(), kind, n)
				rd := r.Open("f")
				if rd == nil {
					return
				}
				var dups []uint64
				for i := 1; i < len(ids); i++ {
					if ids[i] == ids[i-1] {
						dups = append(dups, ids[i])
					}
				}
				for _, m := range []int{1, 2, 5, 16, 64, 200} {
					f := vb.Filter{Has: true}
					for i := 0; i < m; i++ {
						x := ids[c.Intn(len(ids))]
						f.IDs = append(f.IDs, x)
						if len(dups) > 0 && c.Chance(2) { // one that comes twice
							f.IDs = append(f.IDs, dups[c.Intn(len(dups))])
						}
					}
					o := vb.AggOpts{Skip: c.Chance(2), Allow: f}
					if c.Chance(4) {
						o = vb.AggOpts{Skip: c.Chance(2), Deny: f}
					}
					rd.Aggregate(o)
				}
				rd.Close()
			})
		}
	}
	for k := 0; k < c.N(64, 240); k++ {
		c.Large("filters", labels, func(r *vb.Run) {
			ids := c.bigFile(r, "f", uint32(k%8), c.Intn(nBig), c.bigSizes()...)
			if rd := r.Open("f"); rd != nil {
				for q := 0; q < 6; q++ {
					allow, deny := c.bigFilter(ids), vb.NoFilter
					if c.Chance(2) {
						deny = c.bigFilter(ids)
					}
					rd.Aggregate(vb.AggOpts{Skip: c.Chance(2), Allow: allow, Deny: deny, Par: c.Intn(3) * c.Intn(4)})
					rd.Iterator(allow, deny)
				}
				rd.Dump(nil)
				rd.Close()
			}
		})
	}
}

func largeParallel(c *Ctx) {
	labels := []string{"write", "open", "aggp", "par", "nomut"}
	for k := 0; k < c.N(40, 160); k++ {
		c.Large("parallel", labels, func(r *vb.Run) {
			ids := c.bigFile(r, "f", uint32(k%8), c.Intn(nBig), append(c.bigSizes(), c.bigSizes()...)...)
			if rd := r.Open("f"); rd != nil {
				for q := 0; q < 6; q++ {
					o := vb.AggOpts{Skip: c.Chance(2), Par: 1 + c.Intn(10)}
					if c.Chance(2) {
						o.Allow = c.bigFilter(ids)
					}
					if c.Chance(3) {
						o.Deny = c.bigFilter(ids)
					}
					rd.Aggregate(o)
				}
				rd.Close()
			}
		})
	}
}

/* ------------------------------- C07, C08 ------------------------------- */

// overlapping files of consecutive ids.
func (c *Ctx) bigOverlap(r *vb.Run, n int) (rds []*vb.Reader, all []uint64) {
	base := uint64([]int{0, 60000, 1 << 33}[c.Intn(3)])
	for f := 0; f < n; f++ {
		name := fmt.Sprint("f", f)
		w := r.NewWriter(name, c.anyEnc(), math.MaxUint32)
		for b := 1 + c.Intn(3); b > 0; b-- {
			k := []int{3, 500, 5000, 70000}[c.Intn(4)] + c.Intn(100)
			lo := base + uint64(c.Intn(80000))
			ids := make([]uint64, k)
			for i := range ids {
				ids[i] = lo + uint64(i)
			}
			if c.Chance(4) {
				for i := range ids {
					ids[i] = lo + uint64(k-1-i)
				}
			}
			all = append(all, ids...)
			w.WriteBlock(ids, c.bigVals(k))
		}
		w.Finalize(true)
		rd := r.Open(name)
		if rd == nil {
			return nil, nil
		}
		rds = append(rds, rd)
	}
	return
}

func largeMulti(c *Ctx) {
	labels := []string{"write", "open", "multi", "nomut"}
	for k := 0; k < c.N(24, 120); k++ {
		c.Large("multi", labels, func(r *vb.Run) {
			rds, all := c.bigOverlap(r, 2+c.Intn(4))
			if rds == nil {
				return
			}
			if c.Chance(3) {
				rds[0].Caching(true)
			}
			m := r.NewMulti(rds...)
			for q := 0; q < 4; q++ {
				m.Aggregate(c.Chance(2), c.bigFilter(all))
			}
			m.Aggregate(false, vb.NoFilter)
			for _, rd := range rds {
				rd.Close()
			}
		})
	}
}

func largeBitmaps(c *Ctx) {
	labels := []string{"write", "open", "bitmap"}
	for k := 0; k < c.N(40, 160); k++ {
		c.Large("bitmaps", labels, func(r *vb.Run) {
			c.bigFile(r, "f", uint32(k%8), []int{bigSet, bigDups}[c.Intn(2)], c.bigSizes()...)
			if rd := r.Open("f"); rd != nil {
				for q := 0; q < 3; q++ {
					rd.Bitmap()
					rd.Caching(c.Chance(2))
				}
				rd.Bitmap()
				rd.Close()
			}
		})
		// Other requests in between, with filters of any size.
		c.Large("between", labels, func(r *vb.Run) {
			all := c.bigFile(r, "f", uint32(k%8), []int{bigSet, bigDups}[c.Intn(2)], c.bigSizes()...)
			c.bigFile(r, "g", 0, bigSet, 100)
			rd, rg := r.Open("f"), r.Open("g")
			if rd == nil || rg == nil {
				return
			}
			m := r.NewMulti(rd, rg)
			for q := 0; q < 6; q++ {
				if c.Chance(2) {
					rd.Caching(!c.Chance(4))
				}
				rd.Bitmap()
				allow, deny := vb.NoFilter, vb.NoFilter
				if c.Chance(2) {
					allow = c.bigFilter(all)
				}
				if c.Chance(2) {
					deny = c.bigFilter(all)
				}
				switch c.Intn(5) {
				case 0, 1, 2:
					rd.Aggregate(vb.AggOpts{Allow: allow, Deny: deny, Skip: c.Chance(2), Par: c.Intn(3)})
				case 3:
					rd.Iterator(allow, deny)
				case 4:
					m.Aggregate(c.Chance(2), allow)
				}
				rd.Bitmap()
			}
			rg.Close()
			rd.Close()
		})
	}
}

/* ------------------------------- C12, C19 ------------------------------- */

func largeShared(c *Ctx) {
	labels := []string{"write", "open", "dump", "pairs", "aggm", "aggs", "aggf", "aggp", "par", "iter", "bitmap", "multi", "nomut", "range"}
	for k := 0; k < c.N(10, 60); k++ {
		c.Large("shared", labels, func(r *vb.Run) {
			rds, all := c.bigOverlap(r, 1+c.Intn(2))
			if rds == nil {
				return
			}
			m := r.NewMulti(rds...)
			if c.Chance(2) {
				rds[0].Caching(true)
			}
			allow, deny := c.bigFilter(all).Keep(), c.bigFilter(all).Keep()
			var fs []func()
			for t := 0; t < 4; t++ {
				g := &Ctx{Gen: vb.NewGen(c.Int63())}
				fs = append(fs, func() {
					rd := rds[0]
					for q := 0; q < 3; q++ {
						switch g.Intn(6) {
						case 0:
							rd.Dump(nil)
						case 1:
							rd.Pairs(uint64(g.Intn(3)), g.Chance(2))
						case 2:
							rd.Aggregate(vb.AggOpts{Skip: g.Chance(2), Par: g.Intn(3)})
						case 3:
							rd.Aggregate(vb.AggOpts{Allow: allow, Deny: deny, Par: g.Intn(3)})
						case 4:
							rd.Bitmap()
						case 5:
							m.Aggregate(g.Chance(2), allow)
						}
					}
				})
			}
			together(fs...)
		})
	}
	c.hammer(labels)
}

// hammer reads blocks of one file from many goroutines.  An answer that is the same as one recorded before
// is not recorded again.
func (c *Ctx) hammer(labels []string) {
	for k := 0; k < c.N(6, 30); k++ {
		c.Large("hammer", labels, func(r *vb.Run) {
			w := r.NewWriter("f", []uint32{0, 3, 0, 4, 0, 7}[k%6], math.MaxUint32)
			n := []int{4000, 9000, 20000}[k/2%3]
			var all []uint64
			for b := 0; b < 4; b++ {
				ids, vals := make([]uint64, n), make([]int64, n)
				for i := range ids {
					ids[i], vals[i] = uint64(b*n+i), int64(b)<<40
				}
				w.WriteBlock(ids, vals)
				all = append(all, ids...)
			}
			w.Finalize(true)
			rd := r.Open("f")
			if rd == nil {
				return
			}
			rd.Caching(k%2 == 0)
			allow := vb.FilterOf(all[n/2 : 3*n]...).Keep()
			for round := 0; round < 3; round++ {
				answers := rd.Distinct()
				var fs []func()
				for t := 0; t < 12; t++ {
					fs = append(fs, func() {
						for q := 0; q < 10; q++ {
							switch {
							case round == 0 || q%3 > 0:
								answers.Pairs(uint64(t+q) % 4)
							case round == 1:
								answers.Aggregate(vb.AggOpts{Skip: true, Par: t % 3})
							default:
								answers.Aggregate(vb.AggOpts{Allow: allow, Par: t % 3})
							}
						}
					})
				}
				together(fs...)
			}
		})
	}
}

func largeApart(c *Ctx) {
	labels := []string{"write", "open", "dump", "sdump", "stotal", "aggm", "aggs", "aggf", "bitmap", "pack", "est", "pairs"}
	life := func(g *Ctx, r *vb.Run, name string, turn func()) {
		ids, vals := g.bigPairs(5000+g.Intn(60000), bigSet)
		w := r.NewWriter(name, g.anyEnc(), math.MaxUint32)
		w.Estimate(ids, vals)
		turn()
		w.WriteBlock(ids, vals)
		turn()
		w.WriteBlock(ids[:len(ids)/2], vals[:len(ids)/2])
		turn()
		w.Finalize(true)
		s := r.NewSimple(name+"s", g.anyEnc(), 1<<16)
		bi, bv := g.bigPairs(1000+g.Intn(9000), bigSet)
		g.permute(bi, bv)
		s.Write(bi[:len(bi)/2], bv[:len(bi)/2])
		turn()
		s.Write(bi[len(bi)/2:], bv[len(bi)/2:])
		rd := r.Open(name)
		if rd == nil {
			return
		}
		turn()
		rd.Dump(nil)
		done := rd.Hold(0)
		turn()
		rd.Aggregate(vb.AggOpts{Allow: g.bigFilter(ids), Deny: g.bigFilter(ids)})
		s.Close()
		turn()
		rd.Bitmap()
		if rs := r.Open(name + "s"); rs != nil {
			rs.Dump(s)
			turn()
			rs.Aggregate(vb.AggOpts{Skip: true})
			rs.Close()
		}
		done()
		rd.Aggregate(vb.AggOpts{})
		rd.Close()
	}
	// In turns: one of the lives goes on at a time.
	for k := 0; k < c.N(8, 40); k++ {
		c.Large("turns", labels, func(r *vb.Run) {
			var mu sync.Mutex
			var wg sync.WaitGroup
			order := c.Int63()
			for t := 0; t < 2+c.Intn(2); t++ {
				g := &Ctx{Gen: vb.NewGen(order + int64(t))}
				wg.Add(1)
				go func() {
					defer wg.Done()
					mu.Lock()
					defer mu.Unlock()
					life(g, r, fmt.Sprint("g", t), func() { mu.Unlock(); mu.Lock() })
				}()
			}
			wg.Wait()
		})
	}
}

/* ---------------------------- C13, C16, C17 ----------------------------- */

func largeRejects(c *Ctx) {
	labels := []string{"reject", "write", "dump", "sdump", "stotal", "argsame"}
	// Pairs are pending; a batch is refused whose longer column has n elements and the other m.
	for _, pending := range []int{0, 1, 90, 999} {
		for _, n := range []int{100, 1001, 4097, 9000, 70000} {
			c.Large(fmt.Sprintf("pending-%d-%d", pending, n), labels, func(r *vb.Run) {
				s := r.NewSimple("s", c.anyEnc(), 1<<16)
				for _, m := range []int{0, 1, pending / 2, pending, n - 1} {
					m = min(m, n-1)
					if pending > 0 && m < 2 {
						ids, vals := c.bigPairs(pending, bigSet)
						c.permute(ids, vals)
						s.Write(ids, vals)
					}
					ids, vals := c.bigPairs(n, bigSet)
					if c.Chance(2) {
						c.permute(ids, vals)
					}
					s.Write(ids, vals[:m])
					s.Write(ids[:m], vals)
				}
				s.Close()
				if rd := r.Open("s"); rd != nil {
					rd.Dump(s)
					rd.Close()
				}
			})
		}
	}
	for k := 0; k < c.N(24, 100); k++ {
		c.Large("rejects", labels, func(r *vb.Run) {
			s := r.NewSimple("s", c.anyEnc(), 1<<16)
			w := r.NewWriter("w", c.anyEnc(), math.MaxUint32)
			for q := 0; q < 4; q++ {
				n := []int{5, 700, 4000, 5000, 20000}[c.Intn(5)] + c.Intn(100)
				ids, vals := c.bigPairs(n, bigSet)
				if c.Chance(2) {
					c.permute(ids, vals)
				}
				m := n - 1
				if c.Chance(2) {
					m = c.Intn(min(n, 900))
				}
				switch c.Intn(4) {
				case 0:
					s.Write(ids, vals)
				case 1:
					s.Write(ids, vals[:m])
				case 2:
					s.Write(ids[:m], vals)
				case 3:
					ids, vals = ids[:min(n, 700)], vals[:min(n, 700)]
					s.Write(ids, vals)
				}
				ids, vals = c.bigPairs(n, bigStride)
				switch c.Intn(3) {
				case 0:
					w.WriteBlock(ids, vals)
				case 1:
					w.WriteBlock(ids, vals[:m])
				case 2:
					w.WriteBlock(ids[:m], vals)
					w.Estimate(ids[:m], vals)
				}
			}
			w.Finalize(true)
			ids, vals := c.bigPairs(5000, bigSet)
			w.WriteBlock(ids, vals)
			w.Finalize(false)
			s.Close()
			s.Write(ids, vals)
			s.Close()
			c.readBack(r, "w")
			if rd := r.Open("s"); rd != nil {
				rd.Dump(s)
				rd.Close()
			}
		})
	}
}

func largeNothing(c *Ctx) {
	labels := []string{"zero", "write", "open"}
	for k := 0; k < c.N(16, 80); k++ {
		c.Large("nothing", labels, func(r *vb.Run) {
			kind := []int{bigStride, bigSet}[k%2]
			ids := c.bigFile(r, "f", uint32(k%8), kind, c.bigSizes()...)
			rd := r.Open("f")
			if rd == nil {
				return
			}
			for q := 0; q < 5; q++ {
				x := ids[c.Intn(len(ids))]
				var o vb.AggOpts
				switch c.Intn(4) {
				case 0:
					o.Allow = vb.Filter{Has: true}
				case 1:
					o.Allow, o.Deny = vb.FilterOf(x), vb.FilterOf(x, x+1)
				case 2:
					o.Allow = c.bigFilter(ids)
					o.Deny = o.Allow
				case 3:
					o.Allow = vb.FilterOf(x+1, x+7) // mostly between two ids
				}
				o.Skip, o.Par = c.Chance(2), c.Intn(3)
				rd.Aggregate(o)
			}
			if kind == bigSet {
				m := r.NewMulti(rd, rd)
				m.Aggregate(c.Chance(2), vb.Filter{Has: true})
			}
			rd.Close()
		})
	}
}

func largePure(c *Ctx) {
	labels := []string{"dump", "pairs", "aggm", "aggs", "aggf", "aggp", "iter", "bitmap", "nomut", "same", "multi"}
	for k := 0; k < c.N(24, 120); k++ {
		c.Large("pure", labels, func(r *vb.Run) {
			rds, all := c.bigOverlap(r, 2)
			if rds == nil {
				return
			}
			sum := r.Sum("f0")
			m := r.NewMulti(rds...)
			fs := []vb.Filter{vb.NoFilter, c.bigFilter(all), c.bigFilter(all), c.bigFilter(all)}
			var held []func()
			for q := 0; q < 12; q++ {
				rd := rds[c.Intn(4)/3]
				f, d := fs[c.Intn(4)], fs[c.Intn(4)*c.Intn(2)]
				switch c.Intn(9) {
				case 0, 1, 2, 3:
					rd.Aggregate(vb.AggOpts{Skip: c.Chance(2), Allow: f, Deny: d})
					rd.Aggregate(vb.AggOpts{Skip: c.Chance(2), Allow: fs[c.Intn(4)], Deny: d})
				case 4:
					rd.Aggregate(vb.AggOpts{Skip: c.Chance(2), Par: c.Intn(4)})
				case 5:
					rd.Pairs(0, true)
					held = append(held, rd.Hold(0))
				case 6:
					rd.Bitmap()
				case 7:
					rd.Iterator(f, d)
				case 8:
					m.Aggregate(c.Chance(2), f)
				}
			}
			rds[0].Dump(nil)
			for _, h := range held {
				h()
			}
			r.Fact("same", "the file", r.Sum("f0"), sum)
			for _, rd := range rds {
				rd.Close()
			}
		})
	}
}

/* ------------------------- very many blocks ----------------------------- */

func bulkProfile(prop string) func(*Ctx) {
	return func(c *Ctx) {
		labels := map[string][]string{
			"C05": {"aggf", "iter", "nomut"}, "C06": {"aggp", "par"}, "C08": {"bitmap"}, "C20": {"desc", "dump", "pairs", "range"},
			"C13": {"reject"}, "C16": {"zero"}}[prop]
		for k := 0; k < c.N(1, 3); k++ {
			c.Large("bulk", labels, func(r *vb.Run) {
				per := 1 + c.Intn(3)
				n := 65537*per + c.Intn(500)
				ids, vals := c.bigPairs(n, []int{bigSet, bigSet, bigStride, bigDups}[c.Intn(4)])
				if prop == "C08" {
					ids = c.bigIDs(n, bigSet)
				}
				if !r.Bulk("f", c.anyEnc(), per, ids, vals) {
					return
				}
				rd := r.Open("f")
				if rd == nil {
					return
				}
				nb := uint64((n + per - 1) / per)
				for q := 0; q < 3; q++ {
					switch prop {
					case "C05":
						allow, deny := c.bigFilter(ids), c.bigFilter(ids)
						if q == 0 {
							allow, deny = vb.FilterOf(ids[len(ids)-1], ids[per*65536], ids[5]), vb.NoFilter
						}
						rd.Aggregate(vb.AggOpts{Skip: c.Chance(2), Allow: allow, Deny: deny})
						rd.BulkIterator(allow, deny)
					case "C06":
						o := vb.AggOpts{Par: 1 + c.Intn(9), Skip: c.Chance(2)}
						if c.Chance(2) {
							o.Allow = c.bigFilter(ids)
						}
						rd.Aggregate(o)
					case "C08":
						rd.Bitmap()
						rd.Caching(q == 0)
					case "C20":
						if q == 0 {
							rd.BulkRead()
						}
						for _, b := range []uint64{65535, 65536, nb - 1, nb, nb + 65536, math.MaxUint64, uint64(c.Intn(int(nb)))} {
							rd.BulkPairs(b)
						}
					case "C13":
						for _, b := range []uint64{nb, nb + 1, nb + 65536, 1 << 32, 1<<32 + 1, math.MaxUint64} {
							rd.BulkPairs(b)
						}
					case "C16":
						rd.Aggregate(vb.AggOpts{Skip: c.Chance(2), Par: c.Intn(4), Allow: vb.Filter{Has: true}})
						f := c.bigFilter(ids)
						rd.Aggregate(vb.AggOpts{Par: c.Intn(4), Allow: f, Deny: f})
					}
				}
				rd.Close()
			})
		}
	}
}
