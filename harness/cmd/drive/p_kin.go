package main

import (
	"fmt"
	"math"
	"sort"

	"verif/harness/vb"
)

// Blocks (batches, files) that are made from one another: what holds for unrelated data need not
// hold when two blocks share their range, their sums, their order or all but one of their ids.

func init() {
	for _, mix := range []string{"C01", "C03", "C04", "C05", "C06", "C07", "C08", "C16", "C17"} {
		profiles[mix+"kin"] = func(c *Ctx) { kin(c, mix) }
	}
}

type block struct {
	ids  []uint64
	vals []int64
}

func (b block) sorted() []uint64 {
	s := append([]uint64{}, b.ids...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return s
}

// first draws a block with some structure.
func (c *Ctx) first() (b block) {
	n := 1 + c.Intn(12)
	if c.Chance(4) {
		n = []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129}[c.Intn(13)]
	}
	base := []uint64{0, 1, 2, 100, 1000, 65536 - 8, 1 << 16, 3<<16 - 5, 1<<32 - 6, 1 << 48, 1<<63 - 4, 1 << 63, math.MaxUint64 - 2000}[c.Intn(13)]
	step := []uint64{1, 1, 1, 2, 3, 7, 10}[c.Intn(7)]
	ids := make([]uint64, n)
	for i := range ids {
		ids[i] = base + uint64(i)*step
	}
	switch c.Intn(6) {
	case 0: // as many pairs as the range holds, one id twice and one missing
		if n > 2 {
			k := 1 + c.Intn(n-2)
			ids[k] = ids[k-1]
		}
	case 1: // one pair of neighbours exchanged
		if n > 1 {
			k := 1 + c.Intn(n-1)
			ids[k], ids[k-1] = ids[k-1], ids[k]
		}
	case 2:
		c.Shuffle(n, func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	case 3: // twice the same
		ids = append(ids, ids...)
	}
	b.ids = ids
	b.vals = c.valsFor(ids)
	return
}

func (c *Ctx) valsFor(ids []uint64) []int64 {
	n := len(ids)
	vals := c.AnyVals(n)
	switch c.Intn(8) {
	case 0: // values like ids
		for i := range vals {
			vals[i] = int64(ids[i])
		}
	case 1: // a sum of zero
		for i := range vals {
			vals[i] = int64(i/2+1) * int64(1-2*(i%2))
		}
	case 2: // all negative, the largest last, or first
		for i := range vals {
			vals[i] = int64(-1000 + i)
			if c.Chance(4) {
				vals[i] = int64(-1 - i)
			}
		}
	case 3: // one other than the rest
		for i := range vals {
			vals[i] = 0
		}
		vals[c.Intn(n)] = []int64{1, -1, math.MaxInt64, math.MinInt64}[c.Intn(4)]
	}
	return vals
}

// next makes a block from an earlier one.
func (c *Ctx) next(p block) block {
	s := p.sorted()
	n := len(s)
	lo, hi := s[0], s[n-1]
	ids := append([]uint64{}, p.ids...)
	vals := append([]int64{}, p.vals...)
	same := false // the values go with the ids
	switch c.Intn(18) {
	case 0:
		same = true
	case 1: // other values
	case 2: // a part
		k := 1 + c.Intn(n)
		ids, vals, same = ids[:k], vals[:k], true
	case 3: // more
		ids = append(ids, lo-1, hi+1)
	case 4: // right after, in another order
		for i := range ids {
			ids[i] += hi - lo + 1
		}
		same = true
	case 5: // by one
		for i := range ids {
			ids[i]++
		}
	case 6: // right before
		for i := range ids {
			ids[i] -= hi - lo + 1
		}
	case 7: // backwards
		for i := range ids {
			ids[i], vals[i] = p.ids[n-1-i], p.vals[n-1-i]
		}
		same = true
	case 8: // one of the ids
		ids = []uint64{[]uint64{lo, hi, s[n/2], hi + 1, lo - 1}[c.Intn(5)]}
	case 9: // what the range lacks
		has := map[uint64]bool{}
		for _, x := range s {
			has[x] = true
		}
		var gaps []uint64
		for k := 0; k < 60 && hi-lo > 1; k++ {
			if x := lo + uint64(c.Int63())%(hi-lo); !has[x] {
				has[x] = true
				gaps = append(gaps, x)
			}
		}
		if len(gaps) > 0 {
			ids = gaps[:1+c.Intn(min(len(gaps), 20))]
		}
	case 10: // the same ends
		ids = []uint64{lo, hi}
		for k := c.Intn(6); k > 0 && hi-lo > 1; k-- {
			ids = append(ids, lo+uint64(c.Int63())%(hi-lo))
		}
		c.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	case 11: // values moved on by one
		for i := range vals {
			vals[i] = p.vals[(i+1)%n]
		}
		same = true
	case 12: // values negated
		for i := range vals {
			vals[i] = -vals[i]
		}
		same = true
	case 13: // one bit flipped
		bit := uint64(1) << c.Intn(64)
		for i := range ids {
			ids[i] ^= bit
		}
		same = c.Chance(2)
	case 14: // one bit of one id flipped
		ids[c.Intn(n)] ^= 1 << c.Intn(64)
		same = true
	case 15: // every id twice
		ids = append(ids, s...)
	case 16: // one value changed
		vals[c.Intn(n)] = c.AnyVals(1)[0]
		same = true
	case 17:
		return c.first()
	}
	if len(ids) > 140 {
		ids, same = ids[:140], false
	}
	if !same || len(vals) != len(ids) {
		vals = c.valsFor(ids)
	}
	return block{ids, vals}
}

// kinBlocks draws a family.
func (c *Ctx) kinBlocks(n int) []block {
	bs := []block{c.first()}
	for len(bs) < n {
		from := len(bs) - 1
		if c.Chance(3) {
			from = c.Intn(len(bs))
		}
		bs = append(bs, c.next(bs[from]))
	}
	if c.Chance(4) { // the ancestor last
		for i, j := 0, len(bs)-1; i < j; i, j = i+1, j-1 {
			bs[i], bs[j] = bs[j], bs[i]
		}
	}
	return bs
}

// kinFilter draws a filter made from the blocks.
func (c *Ctx) kinFilter(bs []block) vb.Filter {
	if len(bs) == 0 {
		return vb.FilterOf(uint64(c.Intn(9)))
	}
	b := bs[c.Intn(len(bs))].sorted()
	lo, hi := b[0], b[len(b)-1]
	hull := func(lo, hi uint64) vb.Filter {
		if hi < lo || hi-lo > 3000 {
			return vb.FilterOf(lo, hi)
		}
		return vb.Filter{Has: true, Ivs: [][2]uint64{{lo, hi}}}
	}
	switch c.Intn(12) {
	case 0:
		return vb.NoFilter
	case 1: // a block
		return vb.FilterOf(b...)
	case 2: // its range
		return hull(lo, hi)
	case 3: // a little more or less than that
		return hull(lo+uint64(c.Intn(3))-1, hi+uint64(c.Intn(3))-1)
	case 4: // a block but one id
		return vb.FilterOf(append(append([]uint64{}, b[:len(b)/2]...), b[min(len(b), len(b)/2+1):]...)...)
	case 5: // what the range lacks
		has := map[uint64]bool{}
		for _, x := range b {
			has[x] = true
		}
		f := vb.Filter{Has: true}
		for x := lo; x < hi && x-lo < 300; x++ {
			if !has[x] {
				f.IDs = append(f.IDs, x)
			}
		}
		return f
	case 6: // its ends
		return vb.FilterOf(lo, hi)
	case 7:
		return vb.FilterOf([]uint64{lo, hi, lo - 1, hi + 1}[c.Intn(4)])
	case 8: // two blocks
		return vb.FilterOf(append(append([]uint64{}, b...), bs[c.Intn(len(bs))].ids...)...)
	case 9: // everything
		f := vb.Filter{Has: true}
		for _, b := range bs {
			f.IDs = append(f.IDs, b.ids...)
		}
		return f
	case 10: // one block without another
		has := map[uint64]bool{}
		for _, x := range bs[c.Intn(len(bs))].ids {
			has[x] = true
		}
		f := vb.Filter{Has: true}
		for _, x := range b {
			if !has[x] {
				f.IDs = append(f.IDs, x)
			}
		}
		return f
	}
	return vb.Filter{Has: true} // nothing
}

func kin(c *Ctx, mix string) {
	n := c.N(90, 700)
	if mix == "C03" || mix == "C17" {
		n = c.N(50, 400)
	}
	for k := 0; k < n; k++ {
		c.Run("kin", playLabels[mix], func(r *vb.Run) {
			bs := c.kinBlocks(1 + c.Intn(6))
			switch mix {
			case "C03":
				w := r.NewSimple("f", c.anyEnc(), 4096)
				for _, b := range bs {
					w.Write(b.ids, b.vals)
				}
				w.Close()
				if rd := r.Open("f"); rd != nil {
					rd.Dump(w)
					rd.Aggregate(vb.AggOpts{})
					rd.Close()
				}
				return
			case "C07":
				var rds []*vb.Reader
				for i := 0; i < len(bs); {
					f := fmt.Sprint("f", i)
					w := r.NewWriter(f, c.anyEnc(), 1<<20)
					for m := 1 + c.Intn(2); m > 0 && i < len(bs); m-- {
						w.WriteAll(bs[i].ids, bs[i].vals)
						i++
					}
					w.Finalize(true)
					rd := r.Open(f)
					if rd == nil {
						return
					}
					rd.Caching(c.Chance(2))
					rds = append(rds, rd)
				}
				m := r.NewMulti(rds...)
				m.Aggregate(c.Chance(2), vb.NoFilter)
				for q := 0; q < 6; q++ {
					m.Aggregate(c.Chance(2), c.kinFilter(bs))
				}
				return
			}
			w := r.NewWriter("f", c.anyEnc(), 1<<20)
			for _, b := range bs {
				w.WriteAll(b.ids, b.vals)
			}
			w.Finalize(true)
			rd := r.Open("f")
			if rd == nil {
				return
			}
			switch mix {
			case "C01":
				rd.Dump(nil)
				for q := 0; q < 4; q++ {
					rd.Pairs(uint64(c.Intn(len(bs))), c.Chance(2))
				}
			case "C04":
				rd.Aggregate(vb.AggOpts{})
				rd.Aggregate(vb.AggOpts{Skip: true})
				rd.Aggregate(vb.AggOpts{Par: 2})
				r.Image("f")
			case "C05", "C16":
				for q := 0; q < 12; q++ {
					a, d := c.kinFilter(bs), c.kinFilter(bs)
					if q%3 == 0 {
						d = vb.NoFilter
					}
					par := 0
					if mix == "C16" && c.Chance(3) {
						par = 1 + c.Intn(4)
					}
					rd.Aggregate(vb.AggOpts{Skip: c.Chance(2), Allow: a, Deny: d, Par: par})
					if mix == "C05" && q%2 == 0 {
						rd.Iterator(a, d)
					}
				}
			case "C06":
				for _, p := range []int{-1, 1, 2, 3, 4, 5, 7, 8} {
					rd.Aggregate(vb.AggOpts{Skip: c.Chance(2), Par: p})
					rd.Aggregate(vb.AggOpts{Skip: c.Chance(2), Par: p, Allow: c.kinFilter(bs), Deny: c.kinFilter(bs)})
				}
			case "C08":
				rd.Bitmap()
				rd.Caching(true)
				rd.Bitmap()
				rd.Bitmap()
			case "C17":
				var held []func()
				allow, deny := c.kinFilter(bs).Keep(), c.kinFilter(bs).Keep()
				sum := r.Sum("f")
				for q := 0; q < 14; q++ {
					switch c.Intn(7) {
					case 0:
						held = append(held, rd.Hold(uint64(c.Intn(len(bs)))))
					case 1:
						held = append(held, rd.HoldBitmap())
					case 2:
						rd.Aggregate(vb.AggOpts{Skip: c.Chance(2), Allow: allow, Deny: deny, Par: c.Intn(3)})
					case 3:
						rd.Aggregate(vb.AggOpts{Skip: c.Chance(2), Allow: allow})
					case 4:
						rd.Pairs(uint64(c.Intn(len(bs))), true)
					case 5:
						rd.Iterator(allow, deny)
					case 6:
						rd.Aggregate(vb.AggOpts{Skip: c.Chance(2)})
					}
				}
				for _, h := range held {
					h()
				}
				rd.Dump(nil)
				r.Fact("same", "bytes of the file", r.Sum("f"), sum)
			}
			rd.Close()
		})
	}
}
