package main

import (
	"fmt"
	"math"

	"verif/harness/vb"
)

func init() {
	profiles["C01"] = roundTrip
	profiles["C02"] = packing
	profiles["C03"] = simple
	profiles["C04"] = statistics
	profiles["C05"] = filters
	profiles["C06"] = parallel
	profiles["C07"] = multi
	profiles["C08"] = bitmaps
	profiles["C13"] = rejects
	profiles["C16"] = nothing
	profiles["C17"] = pure
	profiles["C19"] = independent
	profiles["C20"] = describe
}

// anyEnc draws an encoding.
func (c *Ctx) anyEnc() uint32 { return uint32(c.Intn(8)) }

// smallFile writes a file of n blocks with few pairs each; it returns the ids per block.
func (c *Ctx) smallFile(r *vb.Run, file string, enc uint32, blocks, maxPairs int) (all []uint64) {
	w := r.NewWriter(file, enc, c.Target())
	if w == nil {
		return nil
	}
	style := c.Intn(12)
	vstyle := c.Intn(9)
	for b := 0; b < blocks; b++ {
		n := 1 + c.Intn(maxPairs)
		ids, vals := c.pairs(n, style, vstyle)
		all = append(all, ids...)
		w.WriteAll(ids, vals)
	}
	w.Finalize(true)
	return all
}

// manyBlocks writes a file of n blocks and opens it (the simple writer with a target that one pair
// exceeds, or a few); it returns the ids.
func (c *Ctx) manyBlocks(r *vb.Run, file string, n int) (rd *vb.Reader, all []uint64) {
	s := r.NewSimple(file, c.anyEnc(), 1)
	style, vstyle := c.Intn(12), c.Intn(9)
	for n > 0 {
		k := min(n, 1000)
		ids, vals := c.pairs(k, style, vstyle)
		s.Write(ids, vals)
		all = append(all, ids...)
		n -= k
	}
	s.Close()
	if rd = r.Open(file); rd != nil {
		rd.Dump(s)
	}
	return
}

// pairs draws n pairs; styles beyond the last mean any.
func (c *Ctx) pairs(n, style, vstyle int) (ids []uint64, vals []int64) {
	if style < 10 {
		ids = c.IDs(n, style)
	} else {
		ids = c.AnyIDs(n)
	}
	if vstyle < 8 {
		vals = c.Vals(n, vstyle)
	} else {
		vals = c.AnyVals(n)
	}
	return
}

/* ------------------------------- C01 ----------------------------------- */

// edgeWords are all words at which an encoding changes its behaviour.
func edgeWords() (us []uint64) {
	seen := map[uint64]bool{}
	add := func(u uint64) {
		for d := -1; d <= 1; d++ {
			if x := u + uint64(d); !seen[x] {
				seen[x] = true
				us = append(us, x)
			}
		}
	}
	for i := 0; i < 10; i++ {
		add(1 << (7 * i)) // varint group
	}
	for i := 0; i < 10; i++ {
		if i < 9 {
			add(1 << (7*i + 6)) // zigzag varint group
			add(-(1 << (7*i + 6)))
		}
	}
	for _, s := range []int{8, 15, 16, 31, 32, 47, 48, 62, 63} {
		add(1 << s)
	}
	add(0)
	return
}

func roundTrip(c *Ctx) {
	labels := []string{"write", "open", "dump", "pairs"}
	edges := edgeWords()
	for enc := uint32(0); enc < 8; enc++ {
		enc := enc
		// Every boundary word as an id, as a value, and as a difference of either.
		c.Run(fmt.Sprintf("edges-%d", enc), labels, func(r *vb.Run) {
			w := r.NewWriter("f", enc, 1<<20)
			ids, vals := []uint64{}, []int64{}
			for i, u := range edges {
				ids = append(ids, u)
				vals = append(vals, int64(edges[len(edges)-1-i]))
			}
			w.WriteAll(ids, vals)
			sum := c.Uint64()
			for i := range ids { // running sums: the differences are the boundary words
				sum += edges[i]
				ids[i], vals[i] = sum, int64(sum*3)
				if c.Chance(2) {
					vals[i] = int64(-sum)
				}
			}
			w.WriteAll(ids, vals)
			c.Shuffle(len(edges), func(i, j int) { edges[i], edges[j] = edges[j], edges[i] })
			for i := range edges {
				ids[i], vals[i] = edges[i], int64(edges[(i*7+3)%len(edges)])
			}
			w.WriteAll(ids, vals)
			for i := 0; i < 12; i++ { // single pairs
				u := edges[c.Intn(len(edges))]
				w.WriteBlock([]uint64{u}, []int64{int64(edges[c.Intn(len(edges))])})
			}
			w.Finalize(true)
			c.readBack(r, "f")
		})
		// Every style of id column against some style of values, and the reverse.
		for s := 0; s < 10+8; s++ {
			s := s
			c.Run(fmt.Sprintf("style-%d-%d", enc, s), labels, func(r *vb.Run) {
				w := r.NewWriter("f", enc, c.Target())
				for k := 0; k < c.N(2, 4); k++ {
					var ids []uint64
					var vals []int64
					n := c.BlockN()
					if s < 10 {
						ids, vals = c.pairs(n, s, 99)
					} else {
						ids, vals = c.pairs(n, 99, s-10)
					}
					w.WriteAll(ids, vals)
				}
				w.Finalize(true)
				c.readBack(r, "f")
			})
		}
		// Histories: finalize, continue, finalize again; both ways of closing.
		c.Run(fmt.Sprintf("again-%d", enc), labels, func(r *vb.Run) {
			w := r.NewWriter("f", enc, c.Target())
			for k := 0; k < 3; k++ {
				for b := c.Intn(3); b >= 0; b-- {
					ids, vals := c.pairs(1+c.Intn(40), 99, 99)
					w.WriteAll(ids, vals)
				}
				w.Finalize(false)
				if c.Chance(2) {
					w.Finalize(false)
				}
				if c.Chance(2) {
					c.readBack(r, "f")
				}
			}
			if c.Chance(2) {
				w.Finalize(true)
			} else {
				w.Close()
			}
			c.readBack(r, "f")
			// The same path again: a new file replaces the old one.
			w = r.NewWriter("f", c.anyEnc(), c.Target())
			ids, vals := c.pairs(1+c.Intn(5), 99, 99)
			w.WriteAll(ids, vals)
			w.Finalize(true)
			c.readBack(r, "f")
		})
		// Larger blocks: counts and section sizes beyond 2^8, 2^12, (thorough) 2^16.
		c.Run(fmt.Sprintf("large-%d", enc), labels, func(r *vb.Run) {
			w := r.NewWriter("f", enc, 1<<30)
			n := c.N(8300, 20000) + c.Intn(500)
			ids, vals := c.pairs(n, c.Intn(12), c.Intn(9))
			w.WriteAll(ids, vals)
			w.Finalize(true)
			c.readBack(r, "f")
		})
	}
	// Counts and section sizes beyond 2^16; both ends of the target range.
	for k := 0; k < c.N(1, 8); k++ {
		c.Run("huge", labels, func(r *vb.Run) {
			w := r.NewWriter("f", uint32((int(c.Seed)+k)%8), math.MaxUint32)
			ids, vals := c.pairs(65600+c.Intn(300), c.Intn(2), c.Intn(9))
			w.WriteAll(ids, vals)
			w.Finalize(true)
			c.readBack(r, "f")
		})
	}
	// Many blocks.
	for k := 0; k < c.N(1, 4); k++ {
		c.Run("many", labels, func(r *vb.Run) {
			w := r.NewWriter("f", c.anyEnc(), 0)
			for b := 0; b < c.N(270, 600); b++ {
				ids, vals := c.pairs(1, 99, 99)
				w.WriteAll(ids, vals)
			}
			w.Finalize(true)
			c.readBack(r, "f")
		})
	}
}

func (c *Ctx) readBack(r *vb.Run, file string) {
	rd := r.Open(file)
	if rd == nil {
		return
	}
	rd.Dump(nil)
	if n := rd.NBlocks(); n > 0 {
		for i := 0; i < 2; i++ {
			rd.Pairs(uint64(c.Intn(n)), false)
		}
	}
	rd.Close()
}

/* ------------------------------- C02 ----------------------------------- */

func packing(c *Ctx) {
	labels := []string{"pack", "est", "cap", "sizes", "write"}
	for enc := uint32(0); enc < 8; enc++ {
		enc := enc
		for k := 0; k < c.N(9, 40); k++ {
			c.Run(fmt.Sprintf("pack-%d", enc), labels, func(r *vb.Run) {
				w := r.NewWriter("f", enc, c.Target())
				size := 0
				for b := 0; b < 2+c.Intn(3); b++ {
					ids, vals := c.pairs(c.BlockN(), 99, 99)
					for tries := 0; len(ids) > 0 && tries < 12; tries++ {
						w.Estimate(ids, vals)
						if len(ids) > 1 && c.Chance(2) {
							n := 1 + c.Intn(len(ids))
							w.Estimate(ids[:n], vals[:n])
						}
						o, n := w.WriteBlock(ids, vals)
						if o == "ok" {
							n = len(ids)
						} else if o != "full" || n <= 0 || n > len(ids) {
							break
						}
						w.Estimate(ids, vals) // at the new position
						size += n
						ids, vals = ids[n:], vals[n:]
					}
				}
				w.Finalize(true)
				if size < 900 {
					r.Image("f")
				}
			})
		}
		// Exact fits: block sizes that end one byte before, at and after a page boundary.
		for k := 0; k < c.N(2, 6); k++ {
			c.Run(fmt.Sprintf("fit-%d", enc), labels, func(r *vb.Run) {
				pages := 1 + c.Intn(3)
				w := r.NewWriter("f", enc, uint32(4096*pages-64*c.Intn(2)))
				for b := 0; b < 3; b++ {
					ids, vals := c.fit(enc, 4096*pages-64*c.Intn(2)+c.Intn(5)-2)
					w.Estimate(ids, vals)
					w.WriteAll(ids, vals)
				}
				w.Finalize(true)
			})
		}
	}
	// The same number of pairs with contents of different sizes, in the same buffers.
	for k := 0; k < c.N(16, 60); k++ {
		c.Run("refill", labels, func(r *vb.Run) {
			w := r.NewWriter("f", uint32(k%8), c.Target())
			n := 2 + c.Intn(120)
			if c.Chance(2) {
				n = 300 + c.Intn(500)
			}
			for q := 0; q < 6; q++ {
				ids, vals := c.pairs(n, c.Intn(12), c.Intn(9))
				if c.Chance(3) {
					vals = c.Vals(n, 0)
				}
				switch c.Intn(3) {
				case 0:
					w.WriteBlock(ids, vals)
				case 1:
					w.Estimate(ids, vals)
				default:
					w.Estimate(ids, vals)
					w.WriteBlock(ids, vals)
				}
			}
			w.Finalize(true)
		})
	}
	// Targets changed by the simple writer take effect for the next block.
	for k := 0; k < c.N(8, 40); k++ {
		c.Run("starget", labels, func(r *vb.Run) {
			s := r.NewSimple("f", c.anyEnc(), 4096)
			t := []int{4032, 4096, 8192, 12288}[c.Intn(4)]
			s.SetTarget(t)
			ids, vals := c.pairs(300+c.Intn(1200), 99, 99)
			s.Write(ids, vals)
			s.Close()
			if rd := r.Open("f"); rd != nil {
				rd.Dump(s)
			}
		})
	}
}

// fit makes pairs whose block takes about size bytes without padding (80 of them fixed).
func (c *Ctx) fit(enc uint32, size int) (ids []uint64, vals []int64) {
	idVar := enc == 4 || enc == 5 || enc == 7
	valVar := enc == 4 || enc == 6 || enc == 7
	idDelta := enc == 1 || enc == 3 || enc == 5 || enc == 7
	valDelta := enc == 2 || enc == 3 || enc == 6 || enc == 7
	left := size - 80
	var id uint64
	var val int64
	for left > 0 {
		nid, nv := 8, 8
		if idVar {
			nid = 1 + c.Intn(5)
		}
		if valVar {
			nv = 1 + c.Intn(5)
		}
		if left < 20 && (idVar || valVar) {
			if idVar {
				nid = 1
			}
			if valVar {
				nv = 1
			}
		}
		di, dv := uint64(1)<<(7*(nid-1)), int64(1)<<(7*(nv-1))/2
		if idDelta {
			id += di
		} else {
			id = di + uint64(c.Intn(20))
		}
		if valDelta {
			val += dv
		} else {
			val = dv
		}
		ids, vals = append(ids, id), append(vals, val)
		left -= nid + nv
	}
	return
}

/* ------------------------------- C03 ----------------------------------- */

func simple(c *Ctx) {
	labels := []string{"sdump", "stotal", "argsame", "sclosed", "write", "open"}
	sizes := []int{0, 1, 2, 5, 100, 499, 500, 501, 998, 999, 1000, 1001, 1999, 2000}
	for k := 0; k < c.N(70, 400); k++ {
		c.Run("batches", labels, func(r *vb.Run) {
			target := c.Target()
			if c.Chance(3) {
				target = []uint32{4096, 8192, 16384, 65536}[c.Intn(4)]
			}
			s := r.NewSimple("f", c.anyEnc(), target)
			left := 2600
			for b := 0; b < 1+c.Intn(9); b++ {
				n := sizes[c.Intn(len(sizes))]
				if c.Chance(2) {
					n = c.Intn(30)
				}
				// Small targets make many blocks; keep their number down.
				if target < 4096 && n > 150 {
					n = 30 + c.Intn(100)
				}
				if n > left {
					n = c.Intn(10)
				}
				left -= n
				ids, vals := c.pairs(n, c.Intn(12), c.Intn(9))
				s.Write(ids, vals)
				if c.Chance(4) && target >= 4096 {
					s.SetTarget([]int{4096, 8192, 20000, 1 << 20}[c.Intn(4)])
				}
			}
			s.Close()
			if c.Chance(3) {
				s.Close()
			}
			if rd := r.Open("f"); rd != nil {
				rd.Dump(s)
				rd.Close()
			}
		})
	}
	// Runs of a thousand and more pending pairs split over many blocks, with remainders of every kind.
	for k := 0; k < c.N(8, 40); k++ {
		c.Run("flush", labels, func(r *vb.Run) {
			s := r.NewSimple("f", c.anyEnc(), 4096*uint32(1+c.Intn(3)))
			for b := 0; b < 3; b++ {
				ids, vals := c.pairs(700+c.Intn(700), c.Intn(12), c.Intn(9))
				s.Write(ids, vals)
			}
			s.Close()
			if rd := r.Open("f"); rd != nil {
				rd.Dump(s)
				rd.Close()
			}
		})
	}
}

/* ------------------------------- C04 ----------------------------------- */

func statistics(c *Ctx) {
	labels := []string{"aggm", "aggs", "stats", "write", "open"}
	one := func(name string, enc uint32, blocks [][]int64, idStyle int) {
		c.Run(name, labels, func(r *vb.Run) {
			w := r.NewWriter("f", enc, 1<<20)
			total := 0
			for _, vals := range blocks {
				ids, _ := c.pairs(len(vals), idStyle, 0)
				w.WriteAll(ids, vals)
				total += len(vals)
			}
			w.Finalize(true)
			if len(blocks) <= 4 && total < 400 {
				r.Image("f")
			}
			if rd := r.Open("f"); rd != nil {
				rd.Aggregate(vb.AggOpts{})
				rd.Aggregate(vb.AggOpts{Skip: true})
				rd.Aggregate(vb.AggOpts{})
				rd.Close()
			}
		})
	}
	ext := []int64{math.MinInt64, math.MinInt64 + 1, -1, 0, 1, math.MaxInt64 - 1, math.MaxInt64}
	for enc := uint32(0); enc < 8; enc++ {
		for _, a := range ext { // constant and paired extremes
			one(fmt.Sprintf("ext1-%d", enc), enc, [][]int64{{a}}, 99)
			b := ext[c.Intn(len(ext))]
			one(fmt.Sprintf("ext2-%d", enc), enc, [][]int64{{a, b}, {b}, {b, a, a}}, 99)
		}
		for s := 0; s < 8; s++ {
			blocks := [][]int64{}
			for b := 0; b < 1+c.Intn(4); b++ {
				blocks = append(blocks, c.Vals(1+c.Intn(60), s))
			}
			one(fmt.Sprintf("vals-%d-%d", enc, s), enc, blocks, 99)
		}
		for s := 0; s < 10; s++ {
			one(fmt.Sprintf("ids-%d-%d", enc, s), enc, [][]int64{c.AnyVals(1 + c.Intn(40)), c.AnyVals(1 + c.Intn(40))}, s)
		}
	}
	// Sums that hit every pattern: negative, exactly MinInt64, wrapping.
	for k := 0; k < c.N(30, 300); k++ {
		a := int64(c.Uint64())
		m := int64(math.MinInt64)
		one("sum", c.anyEnc(), [][]int64{{a, m - a}, {a, -a}, c.AnyVals(1 + c.Intn(9))}, 99)
	}
	for _, n := range []int{257, 1025, c.N(5000, 20000)} {
		c.Run("many", append([]string{"sdump"}, labels...), func(r *vb.Run) {
			if rd, _ := c.manyBlocks(r, "f", n); rd != nil {
				rd.Aggregate(vb.AggOpts{})
				rd.Aggregate(vb.AggOpts{Skip: true})
				rd.Close()
			}
		})
	}
	// Splits by the writer and by the simple writer.
	for k := 0; k < c.N(12, 80); k++ {
		c.Run("split", labels, func(r *vb.Run) {
			enc := c.anyEnc()
			var s *vb.Simple
			if c.Chance(2) {
				w := r.NewWriter("f", enc, c.Target())
				ids, vals := c.pairs(c.BlockN(), 99, 99)
				w.WriteAll(ids, vals)
				ids, vals = c.pairs(c.BlockN(), 99, 99)
				w.WriteAll(ids, vals)
				w.Finalize(true)
			} else {
				s = r.NewSimple("f", enc, 4096)
				for b := 0; b < 3; b++ {
					ids, vals := c.pairs(1+c.Intn(500), 99, 99)
					s.Write(ids, vals)
				}
				s.Close()
			}
			if rd := r.Open("f"); rd != nil {
				if s != nil {
					rd.Dump(s)
				}
				rd.Aggregate(vb.AggOpts{})
				rd.Aggregate(vb.AggOpts{Skip: true})
				rd.Close()
			}
		})
	}
	// Count statistics beyond 16 bits.
	for k := 0; k < c.N(1, 3); k++ {
		c.Run("count", labels, func(r *vb.Run) {
			w := r.NewWriter("f", c.anyEnc(), math.MaxUint32)
			ids, vals := c.pairs(65536+c.Intn(100), 0, c.Intn(9))
			w.WriteAll(ids, vals)
			w.Finalize(true)
			if rd := r.Open("f"); rd != nil {
				rd.Aggregate(vb.AggOpts{})
				rd.Aggregate(vb.AggOpts{Skip: true})
			}
		})
	}
}

/* ----------------------------- C05, C06 --------------------------------- */

// shapedFile writes blocks with ranges of a given shape: disjoint ascending, overlapping, nested,
// descending, interleaved, unsorted inside; it returns the ids.
func (c *Ctx) shapedFile(r *vb.Run, file string, blocks int) (all []uint64) {
	w := r.NewWriter(file, c.anyEnc(), 1<<20)
	shape := c.Intn(7)
	base := []uint64{0, 1, 1000, 65530, 1<<32 - 30, 1<<48 - 30, 1 << 63, math.MaxUint64 - 4000}[c.Intn(8)]
	vstyle := c.Intn(9)
	sign := c.Intn(3)
	for b := 0; b < blocks; b++ {
		n := 1 + c.Intn(9)
		ids := []uint64{}
		for i := 0; i < n; i++ {
			var x uint64
			switch shape {
			case 0: // disjoint, touching
				x = base + uint64(b*10+i)
			case 1: // overlapping
				x = base + uint64(b*6+c.Intn(12))
			case 2: // nested
				x = base + uint64(b*5+c.Intn(2+(blocks-b)*10))
			case 3: // descending blocks
				x = base + uint64((blocks-b)*10+i)
			case 4: // interleaved
				x = base + uint64(i*blocks+b)
			case 5: // same few ids everywhere
				x = base + uint64(c.Intn(6))
			case 6: // anything
				x = c.AnyIDs(1)[0]
			}
			ids = append(ids, x)
		}
		if c.Chance(2) {
			c.Shuffle(n, func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		}
		_, vals := c.pairs(n, 0, vstyle)
		for i := range vals { // one-signed columns show a zero that should not be there
			if sign == 1 && vals[i] >= 0 {
				vals[i] = -vals[i] - 1
			}
			if sign == 2 && vals[i] <= 0 {
				vals[i] = -(vals[i] + 1) + 1
			}
		}
		w.WriteAll(ids, vals)
		all = append(all, ids...)
	}
	w.Finalize(true)
	return
}

func filters(c *Ctx) {
	labels := []string{"aggf", "iter", "write", "open"}
	for k := 0; k < c.N(90, 500); k++ {
		c.Run("filter", labels, func(r *vb.Run) {
			blocks := 1 + c.Intn(6)
			if c.Chance(12) {
				blocks = 0
			}
			ids := c.shapedFile(r, "f", blocks)
			rd := r.Open("f")
			if rd == nil {
				return
			}
			for q := 0; q < 12; q++ {
				o := vb.AggOpts{Skip: c.Chance(2)}
				switch c.Intn(4) {
				case 0:
					o.Allow = c.FilterNear(ids)
				case 1:
					o.Deny = c.FilterNear(ids)
				default:
					o.Allow, o.Deny = c.FilterNear(ids), c.FilterNear(ids)
				}
				if c.Chance(8) { // deny exactly one block or allow exactly its range
					o.Deny = vb.FilterOf(ids[:min(len(ids), 1+c.Intn(9))]...)
				}
				rd.Aggregate(o)
				rd.Iterator(o.Allow, o.Deny)
			}
			rd.Close()
		})
	}
	// Each single id of small files as the whole filter, and as the only one left out.
	for k := 0; k < c.N(12, 60); k++ {
		c.Run("single", labels, func(r *vb.Run) {
			ids := c.shapedFile(r, "f", 1+c.Intn(3))
			rd := r.Open("f")
			if rd == nil {
				return
			}
			for i, id := range ids {
				if i > 12 {
					break
				}
				skip := c.Chance(2)
				rd.Aggregate(vb.AggOpts{Skip: skip, Allow: vb.FilterOf(id)})
				rd.Aggregate(vb.AggOpts{Skip: skip, Deny: vb.FilterOf(id)})
				rd.Aggregate(vb.AggOpts{Skip: !skip, Allow: vb.FilterOf(id-1, id+1)})
				rd.Iterator(vb.FilterOf(id), vb.NoFilter)
				rd.Iterator(vb.FilterOf(id-1), vb.NoFilter)
				rd.Iterator(vb.FilterOf(id+1), vb.FilterOf(id))
			}
			rd.Close()
		})
	}
	for _, n := range []int{130, 1100, c.N(4200, 9000)} {
		c.Run("many", append([]string{"sdump"}, labels...), func(r *vb.Run) {
			rd, ids := c.manyBlocks(r, "f", n)
			if rd == nil {
				return
			}
			for q := 0; q < 3; q++ {
				o := vb.AggOpts{Skip: c.Chance(2), Allow: c.FilterNear(ids), Deny: c.FilterNear(ids[n/3 : n/2])}
				if q == 1 {
					o.Allow = vb.FilterOf(ids[n-1], ids[n/2])
					o.Deny = vb.NoFilter
				}
				rd.Aggregate(o)
				rd.Iterator(o.Allow, o.Deny)
			}
			rd.Close()
		})
	}
	// Blocks of realistic size, filters of many ids.
	for k := 0; k < c.N(8, 40); k++ {
		c.Run("big", labels, func(r *vb.Run) {
			ids := c.smallFile(r, "f", c.anyEnc(), 1+c.Intn(5), 200)
			rd := r.Open("f")
			if rd == nil {
				return
			}
			for q := 0; q < 5; q++ {
				o := vb.AggOpts{Skip: c.Chance(2), Allow: c.FilterNear(ids), Deny: c.FilterNear(ids)}
				rd.Aggregate(o)
				rd.Iterator(o.Allow, o.Deny)
			}
		})
	}
}

func parallel(c *Ctx) {
	labels := []string{"par", "write", "open"}
	for k := 0; k < c.N(60, 400); k++ {
		c.Run("par", labels, func(r *vb.Run) {
			blocks := 1 + c.Intn(12)
			if c.Chance(6) {
				blocks = c.Intn(3)
			}
			ids := c.shapedFile(r, "f", blocks)
			rd := r.Open("f")
			if rd == nil {
				return
			}
			for _, p := range []int{-1, -7, 1, 2, 3, 4, 5, blocks - 1, blocks, blocks + 1, 2*blocks + 3, 64} {
				if p == 0 {
					p = 6
				}
				o := vb.AggOpts{Skip: c.Chance(2), Par: p}
				rd.Aggregate(o)
				if c.Chance(2) {
					o.Allow = c.FilterNear(ids)
				}
				if c.Chance(2) {
					o.Deny = c.FilterNear(ids)
				}
				rd.Aggregate(o)
			}
			rd.Close()
		})
	}
	manyParallel(c)
}

func manyParallel(c *Ctx) {
	labels := []string{"par", "write", "open", "sdump"}
	for _, n := range []int{100, 1025, c.N(4500, 9000)} {
		c.Run("many", labels, func(r *vb.Run) {
			rd, ids := c.manyBlocks(r, "f", n)
			if rd == nil {
				return
			}
			for _, p := range []int{-1, 2, 3, 7, 16, 33, 300, n - 1, n, 2 * n} {
				o := vb.AggOpts{Skip: c.Chance(2), Par: p}
				if c.Chance(2) {
					o.Allow = c.FilterNear(ids)
				}
				if c.Chance(2) {
					o.Deny = c.FilterNear(ids[:n/2])
				}
				rd.Aggregate(o)
			}
			rd.Close()
		})
	}
}

/* ------------------------------- C07 ----------------------------------- */

func multi(c *Ctx) {
	labels := []string{"multi", "write", "open", "aggm", "bitmap"}
	for k := 0; k < c.N(80, 400); k++ {
		c.Run("multi", labels, func(r *vb.Run) {
			nf := c.Intn(5)
			if c.Chance(10) {
				nf = 8
			}
			overlap := c.Intn(3) // of ids: same few, neighbouring ranges, none
			base := []uint64{0, 65530, 1<<32 - 3, math.MaxUint64 - 60}[c.Intn(4)]
			rds := []*vb.Reader{}
			all := []uint64{}
			for f := 0; f < nf; f++ {
				name := fmt.Sprint("f", f)
				w := r.NewWriter(name, c.anyEnc(), c.Target())
				nb := c.Intn(4)
				for b := 0; b < nb; b++ {
					n := 1 + c.Intn(8)
					ids := make([]uint64, n)
					for i := range ids {
						switch overlap {
						case 0:
							ids[i] = base + uint64(c.Intn(10))
						case 1:
							ids[i] = base + uint64(f*4+c.Intn(8))
						default:
							ids[i] = base + uint64(f*7+c.Intn(7))
						}
					}
					all = append(all, ids...)
					_, vals := c.pairs(n, 0, c.Intn(9))
					w.WriteAll(ids, vals)
				}
				w.Finalize(true)
				rd := r.Open(name)
				if rd == nil {
					return
				}
				if c.Chance(2) {
					rd.Caching(true)
				}
				rds = append(rds, rd)
			}
			m := r.NewMulti(rds...)
			for q := 0; q < 6; q++ {
				f := vb.NoFilter
				if c.Chance(2) {
					f = c.FilterNear(all)
				}
				m.Aggregate(c.Chance(2), f)
				if nf > 0 && c.Chance(2) { // readers stay usable on their own
					rd := rds[c.Intn(nf)]
					switch c.Intn(4) {
					case 0:
						rd.Aggregate(vb.AggOpts{})
					case 1:
						rd.Bitmap()
					case 2:
						rd.Caching(c.Chance(2))
					case 3:
						m.Aggregate(c.Chance(2), vb.NoFilter)
					}
				}
			}
			// Another collection of the same readers, in another order.
			if nf > 1 {
				c.Shuffle(nf, func(i, j int) { rds[i], rds[j] = rds[j], rds[i] })
				m2 := r.NewMulti(rds[:1+c.Intn(nf)]...)
				m2.Aggregate(false, vb.NoFilter)
				m.Aggregate(true, vb.NoFilter)
				m2.Aggregate(true, c.FilterNear(all))
			}
		})
	}
	manyFiles(c)
}

// manyFiles are collections of many files, and of files with many ids.
func manyFiles(c *Ctx) {
	labels := []string{"multi", "write", "open", "sdump", "aggm", "bitmap"}
	for _, nf := range []int{17, 40, c.N(70, 300)} {
		c.Run("files", labels, func(r *vb.Run) {
			rds := []*vb.Reader{}
			all := []uint64{}
			for f := 0; f < nf; f++ {
				name := fmt.Sprint("f", f)
				w := r.NewWriter(name, c.anyEnc(), 4096)
				ids := make([]uint64, c.Intn(4))
				for i := range ids {
					ids[i] = uint64(c.Intn(3 * nf))
				}
				all = append(all, ids...)
				if len(ids) > 0 {
					w.WriteAll(ids, c.AnyVals(len(ids)))
				}
				w.Finalize(true)
				rd := r.Open(name)
				if rd == nil {
					return
				}
				rds = append(rds, rd)
			}
			m := r.NewMulti(rds...)
			for q := 0; q < 3; q++ {
				m.Aggregate(c.Chance(2), vb.NoFilter)
				m.Aggregate(c.Chance(2), c.FilterNear(all))
			}
		})
	}
	for k := 0; k < c.N(2, 8); k++ {
		c.Run("large", labels, func(r *vb.Run) {
			rds := []*vb.Reader{}
			all := []uint64{}
			for f := 0; f < 3; f++ {
				rd, ids := c.manyBlocks(r, fmt.Sprint("f", f), 200+c.Intn(600))
				if rd == nil {
					return
				}
				all = append(all, ids...)
				rds = append(rds, rd)
			}
			m := r.NewMulti(rds...)
			m.Aggregate(false, vb.NoFilter)
			m.Aggregate(true, vb.NoFilter)
			m.Aggregate(c.Chance(2), c.FilterNear(all))
			rds[2].Bitmap()
		})
	}
}

/* ------------------------------- C08 ----------------------------------- */

func bitmaps(c *Ctx) {
	labels := []string{"bitmap", "write", "open"}
	hist := func(r *vb.Run, n int) {
		rd := r.Open("f")
		if rd == nil {
			return
		}
		rd.Bitmap()
		for i := 0; i < n; i++ {
			if c.Chance(2) {
				rd.Caching(c.Chance(2))
			}
			rd.Bitmap()
			if c.Chance(3) {
				rd.Aggregate(vb.AggOpts{Deny: c.FilterNear(nil)})
			}
		}
		rd.Close()
	}
	for s := 0; s < 10; s++ {
		s := s
		for k := 0; k < c.N(5, 20); k++ {
			c.Run(fmt.Sprintf("ids-%d", s), labels, func(r *vb.Run) {
				w := r.NewWriter("f", c.anyEnc(), c.Target())
				for b := 0; b < 1+c.Intn(4); b++ {
					ids, vals := c.pairs(1+c.Intn(150), s, 0)
					w.WriteAll(ids, vals)
				}
				w.Finalize(true)
				hist(r, 5)
			})
		}
	}
	c.Run("empty", labels, func(r *vb.Run) {
		r.NewWriter("f", 0, 4096).Finalize(true)
		hist(r, 5)
	})
	// Dense containers (array to bitmap conversion) and many containers.
	for k := 0; k < c.N(3, 10); k++ {
		c.Run("dense", labels, func(r *vb.Run) {
			w := r.NewWriter("f", 7, 1<<30)
			n := 2000 + c.Intn(4000)
			ids := make([]uint64, n)
			step := uint64(1 + c.Intn(3))
			off := uint64(c.Intn(70000))
			for i := range ids {
				ids[i] = off + uint64(i)*step
			}
			w.WriteAll(ids, c.Vals(n, vb.VSmall))
			w.Finalize(true)
			hist(r, 2)
		})
		c.Run("containers", labels, func(r *vb.Run) {
			w := r.NewWriter("f", c.anyEnc(), 1<<30)
			n := 300
			ids := make([]uint64, n)
			for i := range ids {
				ids[i] = uint64(i)*65536*uint64(1+c.Intn(1000)) + uint64(c.Intn(3))
			}
			w.WriteAll(ids, c.Vals(n, vb.VSmall))
			w.Finalize(true)
			hist(r, 2)
		})
	}
	for _, n := range []int{300, c.N(5000, 20000)} {
		c.Run("many", append([]string{"sdump"}, labels...), func(r *vb.Run) {
			if rd, _ := c.manyBlocks(r, "f", n); rd != nil {
				rd.Bitmap()
				rd.Caching(true)
				rd.Bitmap()
				rd.Close()
			}
		})
	}
	// The simple writer, and writing on after Finalize.
	for k := 0; k < c.N(6, 30); k++ {
		c.Run("simple", labels, func(r *vb.Run) {
			s := r.NewSimple("f", c.anyEnc(), 4096)
			for b := 0; b < 3; b++ {
				ids, vals := c.pairs(1+c.Intn(400), 99, 99)
				s.Write(ids, vals)
			}
			s.Close()
			if rd := r.Open("f"); rd != nil {
				rd.Dump(s)
				rd.Close()
			}
			hist(r, 3)
		})
		c.Run("again", labels, func(r *vb.Run) {
			w := r.NewWriter("f", c.anyEnc(), c.Target())
			for b := 0; b < 3; b++ {
				ids, vals := c.pairs(1+c.Intn(30), 99, 99)
				w.WriteAll(ids, vals)
				w.Finalize(false)
				hist(r, 1)
			}
			w.Close()
		})
	}
}

/* ------------------------------- C13 ----------------------------------- */

func rejects(c *Ctx) {
	labels := []string{"reject", "write", "open", "dump", "sdump", "stotal", "sclosed", "argsame", "bitmap", "aggm", "desc", "range"}
	badWrite := func(w *vb.Writer) {
		ids, vals := c.pairs(2+c.Intn(20), 99, 99)
		switch c.Intn(5) {
		case 0:
			w.WriteBlock(ids, vals[:c.Intn(len(vals))])
		case 1:
			w.WriteBlock(ids[:c.Intn(len(ids))], vals)
		case 2:
			w.WriteBlock(nil, nil)
		case 3:
			w.Estimate(ids, vals[1:])
			w.Estimate(nil, nil)
		case 4:
			w.WriteBlock(ids, nil)
		}
	}
	for k := 0; k < c.N(50, 300); k++ {
		c.Run("writer", labels, func(r *vb.Run) {
			enc := c.anyEnc()
			w := r.NewWriter("f", enc, c.Target())
			for b := 0; b < 1+c.Intn(4); b++ {
				if c.Chance(2) {
					badWrite(w)
				}
				if c.Chance(5) {
					continue
				}
				ids, vals := c.pairs(1+c.Intn(60), 99, 99)
				w.WriteAll(ids, vals)
			}
			badWrite(w)
			w.Finalize(true)
			// everything after close
			if c.Chance(2) {
				ids, vals := c.pairs(3, 99, 99)
				w.WriteBlock(ids, vals)
				badWrite(w)
				w.Finalize(c.Chance(2))
			}
			c.readAll(r, "f", nil)
		})
	}
	// Unsupported encodings: nothing can be written, the file stays valid and empty.
	for _, e := range []uint32{8, 9, 100, 1 << 20} {
		e := e
		c.Run("encoding", labels, func(r *vb.Run) {
			w := r.NewWriter("f", e, 4096)
			if w == nil {
				return
			}
			for b := 0; b < 2; b++ {
				ids, vals := c.pairs(1+c.Intn(5), 99, 99)
				w.WriteBlock(ids, vals)
				w.Estimate(ids, vals)
			}
			w.Close()
		})
	}
	for k := 0; k < c.N(40, 200); k++ {
		c.Run("simple", labels, func(r *vb.Run) {
			s := r.NewSimple("f", c.anyEnc(), 4096)
			bad := func() {
				ids, vals := c.pairs(2+c.Intn(20), 99, 99)
				switch c.Intn(4) {
				case 0:
					s.Write(ids, vals[:c.Intn(len(vals))])
				case 1:
					s.Write(ids[:c.Intn(len(ids))], vals)
				case 2:
					s.Write(nil, nil)
				case 3:
					s.Write(nil, vals)
				}
			}
			for b := 0; b < 1+c.Intn(5); b++ {
				bad()
				n := 1 + c.Intn(30)
				if c.Chance(4) {
					n = 990 + c.Intn(20)
				}
				ids, vals := c.pairs(n, 99, 99)
				s.Write(ids, vals)
			}
			bad()
			s.Close()
			for b := 0; b < c.Intn(5); b++ {
				switch c.Intn(4) {
				case 0:
					ids, vals := c.pairs(3, 99, 99)
					s.Write(ids, vals)
				case 1:
					s.Close()
				case 2:
					s.SetTarget(4096)
				case 3:
					bad()
				}
			}
			c.readAll(r, "f", s)
		})
	}
	// Block indexes.
	for k := 0; k < c.N(12, 60); k++ {
		c.Run("index", labels, func(r *vb.Run) {
			n := c.Intn(5)
			c.smallFile(r, "f", c.anyEnc(), n, 9)
			c.readAll(r, "f", nil)
		})
	}
}

// readAll observes everything, with out of range block indexes in between.
func (c *Ctx) readAll(r *vb.Run, file string, s *vb.Simple) {
	rd := r.Open(file)
	if rd == nil {
		return
	}
	rd.Dump(s)
	n := uint64(rd.NBlocks())
	for _, b := range []uint64{n, n + 1, 1 << 31, 1 << 32, 1<<32 + n, 1 << 62, 1 << 63, math.MaxUint64, math.MaxUint64 - 1} {
		rd.Pairs(b, false)
	}
	rd.Describe()
	rd.Bitmap()
	rd.Aggregate(vb.AggOpts{})
	rd.Dump(s)
	rd.Close()
}

/* ------------------------------- C16 ----------------------------------- */

func nothing(c *Ctx) {
	labels := []string{"zero", "write", "open"}
	paths := func(r *vb.Run, rd *vb.Reader, allow, deny vb.Filter) {
		for _, skip := range []bool{false, true} {
			for _, p := range []int{0, 2, 5, -1} {
				rd.Aggregate(vb.AggOpts{Skip: skip, Par: p, Allow: allow, Deny: deny})
			}
		}
	}
	for _, e := range []uint32{0, 3, 7} {
		e := e
		c.Run("noblocks", labels, func(r *vb.Run) {
			r.NewWriter("f", e, 4096).Finalize(true)
			rd := r.Open("f")
			if rd == nil {
				return
			}
			paths(r, rd, vb.NoFilter, vb.NoFilter)
			paths(r, rd, vb.FilterOf(), vb.NoFilter)
			paths(r, rd, vb.FilterOf(1), vb.FilterOf(0, 2))
			m := r.NewMulti(rd)
			m.Aggregate(false, vb.NoFilter)
			m.Aggregate(true, vb.FilterOf(3))
			m = r.NewMulti(rd, rd)
			m.Aggregate(true, vb.NoFilter)
			r.NewMulti().Aggregate(false, vb.NoFilter)
		})
	}
	for k := 0; k < c.N(40, 250); k++ {
		c.Run("none", labels, func(r *vb.Run) {
			ids := c.shapedFile(r, "f", 1+c.Intn(6))
			rd := r.Open("f")
			if rd == nil {
				return
			}
			has := map[uint64]bool{}
			for _, id := range ids {
				has[id] = true
			}
			// Ids inside the range of the file but not in it.
			holes := vb.Filter{Has: true}
			for _, id := range ids {
				for _, x := range []uint64{id + 1, id - 1, id + 7, id ^ 1<<17} {
					if !has[x] && c.Chance(2) {
						holes.IDs = append(holes.IDs, x)
					}
				}
			}
			paths(r, rd, holes, vb.NoFilter)
			paths(r, rd, vb.NoFilter, vb.FilterOf(ids...))
			half := vb.Filter{Has: true}
			for id := range has {
				if c.Chance(2) {
					half.IDs = append(half.IDs, id)
				}
			}
			sortU(half.IDs)
			paths(r, rd, half, half)
			paths(r, rd, vb.FilterOf(), vb.NoFilter)
			m := r.NewMulti(rd)
			m.Aggregate(c.Chance(2), holes)
			// A newer file with nothing selected, an older one with nothing left.
			w := r.NewWriter("g", c.anyEnc(), 1<<20)
			w.WriteAll(ids, c.Vals(len(ids), vb.VNeg))
			w.Finalize(true)
			if rg := r.Open("g"); rg != nil {
				m = r.NewMulti(rd, rg)
				m.Aggregate(c.Chance(2), holes)
				m.Aggregate(c.Chance(2), vb.FilterOf())
				paths(r, rg, holes, vb.FilterOf(ids...))
			}
		})
	}
}

/* ------------------------------- C17 ----------------------------------- */

func pure(c *Ctx) {
	labels := []string{"nomut", "write", "open", "dump", "pairs", "bitmap", "aggm", "aggs", "aggf", "aggp", "iter", "multi", "same"}
	for k := 0; k < c.N(50, 300); k++ {
		c.Run("pure", labels, func(r *vb.Run) {
			rds := []*vb.Reader{}
			nf := 1 + c.Intn(3)
			ids := []uint64{}
			sums := []string{}
			for f := 0; f < nf; f++ {
				name := fmt.Sprint("f", f)
				if c.Chance(2) {
					ids = append(ids, c.shapedFile(r, name, 1+c.Intn(4))...)
				} else {
					ids = append(ids, c.smallFile(r, name, c.anyEnc(), 1+c.Intn(3), 30)...)
				}
				sums = append(sums, r.Sum(name))
				rd := r.Open(name)
				if rd == nil {
					return
				}
				rds = append(rds, rd)
			}
			m := r.NewMulti(rds...)
			shared := c.FilterNear(ids).Keep() // one bitmap object used for many calls
			deny := c.FilterNear(ids).Keep()
			held := []func(){}
			for q := 0; q < 14; q++ {
				rd := rds[c.Intn(nf)]
				switch c.Intn(11) {
				case 10:
					held = append(held, rd.HoldBitmap())
				case 0:
					rd.Aggregate(vb.AggOpts{Skip: c.Chance(2), Allow: shared, Deny: deny, Par: c.Intn(4)})
				case 1:
					rd.Aggregate(vb.AggOpts{Skip: c.Chance(2), Allow: shared})
				case 2:
					rd.Aggregate(vb.AggOpts{Skip: c.Chance(2)})
				case 3:
					m.Aggregate(c.Chance(2), shared)
				case 4:
					m.Aggregate(c.Chance(2), vb.NoFilter)
				case 5:
					rd.Bitmap()
				case 6:
					rd.Caching(c.Chance(2))
					rd.Bitmap()
				case 7:
					if n := rd.NBlocks(); n > 0 {
						b := uint64(c.Intn(n))
						rd.Pairs(b, c.Chance(2))
						rd.Pairs(b, false)
						held = append(held, rd.Hold(b))
					}
				case 8:
					rd.Iterator(shared, deny)
				case 9:
					rd.Dump(nil)
				}
			}
			for _, f := range held { // results returned earlier are still the same
				f()
			}
			for f := 0; f < nf; f++ {
				rds[f].Dump(nil)
				rds[f].Close()
				r.Fact("same", "bytes of the file", r.Sum(fmt.Sprint("f", f)), sums[f])
			}
		})
	}
}

/* ------------------------------- C19 ----------------------------------- */

func independent(c *Ctx) {
	labels := []string{"write", "open", "dump", "sdump", "stotal", "aggm", "aggs", "aggf", "aggp", "bitmap", "multi", "desc", "argsame", "pack"}
	for k := 0; k < c.N(50, 300); k++ {
		c.Run("mixed", labels, func(r *vb.Run) {
			type obj struct {
				w    *vb.Writer
				s    *vb.Simple
				file string
			}
			objs := []obj{}
			open := []*vb.Reader{}
			ids := []uint64{}
			nfile := 0
			for q := 0; q < 30; q++ {
				switch k := c.Intn(10); {
				case k < 2 && len(objs) < 5:
					f := fmt.Sprint("f", nfile)
					nfile++
					if c.Chance(2) {
						objs = append(objs, obj{w: r.NewWriter(f, c.anyEnc(), c.Target()), file: f})
					} else {
						objs = append(objs, obj{s: r.NewSimple(f, c.anyEnc(), 4096), file: f})
					}
				case k < 6 && len(objs) > 0:
					o := objs[c.Intn(len(objs))]
					i, v := c.pairs(1+c.Intn(40), 99, 99)
					ids = append(ids, i...)
					if o.w != nil {
						o.w.WriteAll(i, v)
					} else {
						o.s.Write(i, v)
					}
				case k < 8 && len(objs) > 0:
					j := c.Intn(len(objs))
					o := objs[j]
					objs = append(objs[:j], objs[j+1:]...)
					if o.w != nil {
						o.w.Finalize(true)
					} else {
						o.s.Close()
					}
					rd := r.Open(o.file)
					if rd == nil {
						return
					}
					rd.Dump(o.s)
					open = append(open, rd)
				case len(open) > 0:
					rd := open[c.Intn(len(open))]
					switch c.Intn(7) {
					case 0:
						rd.Aggregate(vb.AggOpts{Skip: c.Chance(2), Par: c.Intn(3)})
					case 1:
						rd.Aggregate(vb.AggOpts{Allow: c.FilterNear(ids)})
					case 2:
						rd.Bitmap()
					case 3:
						rd.Caching(c.Chance(2))
					case 4:
						rd.Describe()
					case 5:
						rd.Dump(nil)
					case 6:
						r.NewMulti(open...).Aggregate(c.Chance(2), vb.NoFilter)
					}
				}
			}
			for _, o := range objs {
				if o.w != nil {
					o.w.Finalize(true)
				} else {
					o.s.Close()
				}
				if rd := r.Open(o.file); rd != nil {
					rd.Dump(o.s)
					open = append(open, rd)
				}
			}
			for _, rd := range open {
				rd.Dump(nil)
				rd.Close()
			}
		})
	}
	// Simple writers that flush while others, older and newer ones, hold pending pairs.
	for k := 0; k < c.N(8, 60); k++ {
		c.Run("flush", labels, func(r *vb.Run) {
			var live []*vb.Simple
			names := map[*vb.Simple]string{}
			total, nfile := 0, 0
			create := func() {
				f := fmt.Sprint("f", nfile)
				nfile++
				s := r.NewSimple(f, c.anyEnc(), []uint32{4096, 8192, 16384, 1 << 16, 1 << 20}[c.Intn(5)])
				names[s] = f
				live = append(live, s)
			}
			finish := func(j int) bool {
				s := live[j]
				live = append(live[:j], live[j+1:]...)
				s.Close()
				rd := r.Open(names[s])
				if rd == nil {
					return false
				}
				rd.Dump(s)
				rd.Close()
				return true
			}
			create()
			for q := 0; q < 24; q++ {
				switch k := c.Intn(10); {
				case len(live) == 0 || k < 2 && len(live) < 4:
					create()
				case k == 2 && nfile > 2:
					if !finish(c.Intn(len(live))) {
						return
					}
				default:
					n := 1 + c.Intn(6)
					if c.Chance(3) && total < 9000 {
						n = []int{400, 999, 1000, 1001, 1300, 1999}[c.Intn(6)]
					}
					total += n
					i, v := c.pairs(n, c.Intn(12), c.Intn(9))
					live[c.Intn(len(live))].Write(i, v)
				}
			}
			for len(live) > 0 {
				if !finish(c.Intn(len(live))) {
					return
				}
			}
		})
	}
}

/* ------------------------------- C20 ----------------------------------- */

func describe(c *Ctx) {
	labels := []string{"desc", "range", "pairs", "write", "open"}
	for enc := uint32(0); enc < 8; enc++ {
		enc := enc
		for _, n := range []int{0, 1, 2, 3, 7} {
			n := n
			c.Run(fmt.Sprintf("enc-%d", enc), labels, func(r *vb.Run) {
				c.smallFile(r, "f", enc, n, 12)
				c.edges(r, "f", nil)
			})
		}
		c.Run(fmt.Sprintf("again-%d", enc), labels, func(r *vb.Run) {
			w := r.NewWriter("f", enc, c.Target())
			for k := 0; k < 3; k++ {
				w.Finalize(false)
				c.edges(r, "f", nil)
				ids, vals := c.pairs(1+c.Intn(9), 99, 99)
				w.WriteAll(ids, vals)
				if c.Chance(2) {
					w.WriteBlock(nil, nil)
				}
			}
			w.Finalize(true)
			c.edges(r, "f", nil)
		})
		c.Run(fmt.Sprintf("simple-%d", enc), labels, func(r *vb.Run) {
			s := r.NewSimple("f", enc, 4096)
			for k := 0; k < c.Intn(4); k++ {
				ids, vals := c.pairs(1+c.Intn(400), 99, 99)
				s.Write(ids, vals)
			}
			s.Close()
			c.edges(r, "f", s)
		})
	}
	// More blocks than fit into any round number of index entries.
	for _, n := range []int{1000, c.N(4500, 70000)} {
		c.Run("very-many", append([]string{"sdump"}, labels...), func(r *vb.Run) {
			s := r.NewSimple("f", c.anyEnc(), 1)
			for n > 0 {
				k := min(n, 1000)
				ids, vals := c.pairs(k, 99, 99)
				s.Write(ids, vals)
				n -= k
			}
			s.Close()
			c.edges(r, "f", s)
		})
	}
	for _, n := range []int{255, 256, 257} {
		n := n
		c.Run("many", labels, func(r *vb.Run) {
			w := r.NewWriter("f", c.anyEnc(), 4096)
			for b := 0; b < n; b++ {
				ids, vals := c.pairs(1, 99, 99)
				w.WriteAll(ids, vals)
			}
			w.Finalize(true)
			c.edges(r, "f", nil)
		})
	}
}

func (c *Ctx) edges(r *vb.Run, file string, s *vb.Simple) {
	rd := r.Open(file)
	if rd == nil {
		return
	}
	if s != nil {
		rd.Dump(s)
	}
	rd.Describe()
	n := uint64(rd.NBlocks())
	for _, b := range []uint64{0, n - 1, n, n + 1, n + 256, 1<<16 + n, 1 << 32, 1<<32 + n, 1 << 63, math.MaxUint64} {
		rd.Pairs(b, false)
	}
	rd.Describe()
	rd.Close()
}
