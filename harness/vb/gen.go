package vb

import (
	"math"
	"math/rand"
	"sort"
)

// Gen draws boundary-biased data.
type Gen struct{ *rand.Rand }

func NewGen(seed int64) Gen { return Gen{rand.New(rand.NewSource(seed))} }

func pick[T any](g Gen, xs ...T) T { return xs[g.Intn(len(xs))] }

// Chance is true once in n.
func (g Gen) Chance(n int) bool { return g.Intn(n) == 0 }

// Seed words: varint, container, sign and width boundaries.
func (g Gen) edgeU() uint64 {
	switch g.Intn(8) {
	case 0:
		return pick(g, uint64(0), 1, 2, math.MaxUint64, math.MaxUint64-1, 1<<63, 1<<63-1, 1<<62)
	case 1, 2:
		return (uint64(1) << (7 * g.Intn(10))) + uint64(g.Intn(3)) - 1 // varint groups
	case 3:
		return (uint64(g.Intn(5)) << 16) + uint64(g.Intn(3)) - 1 // bitmap containers
	case 4:
		return (uint64(1) << g.Intn(64)) + uint64(g.Intn(3)) - 1
	case 5:
		return pick(g, uint64(0x5642455F434F4C00), 0xFFFFFFFF, 1<<32, 1<<48, 1<<48-1, 0x0102030405060708)
	case 6:
		return g.Uint64() >> g.Intn(64)
	}
	return uint64(g.Intn(300))
}

func (g Gen) edgeI() int64 {
	switch g.Intn(7) {
	case 0:
		return pick(g, int64(0), 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt64-1, math.MinInt64+1)
	case 1, 2: // zigzag/varint group boundaries
		v := (int64(1) << (7*g.Intn(9) + 6)) + int64(g.Intn(3)) - 1
		if g.Chance(2) {
			v = -v
		}
		return v
	case 3:
		return int64(g.Uint64()) >> g.Intn(64)
	case 4:
		v := (int64(1) << g.Intn(63)) + int64(g.Intn(3)) - 1
		if g.Chance(2) {
			v = -v
		}
		return v
	}
	return int64(g.Intn(400) - 200)
}

// IDStyles and ValStyles name the shapes of generated columns.
const (
	IDSeq = iota
	IDSparse
	IDUnsorted
	IDDup
	IDEdge
	IDEdgeSorted
	IDHigh
	IDSame
	IDDesc
	IDContainers
	IDNearly
	nIDStyles
)

func (g Gen) IDs(n, style int) []uint64 {
	ids := make([]uint64, n)
	base := pick(g, uint64(0), 1, 100, 65530, 1<<32-5, 1<<48-3, math.MaxUint64-uint64(n)-3)
	switch style {
	case IDSeq:
		for i := range ids {
			ids[i] = base + uint64(i)
		}
	case IDSparse, IDUnsorted:
		step := pick(g, 2, 10, 200, 70000)
		x := base
		if x > math.MaxUint64-uint64(n*step) {
			x = 7
		}
		for i := range ids {
			x += uint64(1 + g.Intn(step))
			ids[i] = x
		}
		if style == IDUnsorted {
			g.Shuffle(n, func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		}
	case IDDup:
		for i := range ids {
			ids[i] = base + uint64(g.Intn(n/3+1))
		}
		if g.Chance(2) {
			sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		}
	case IDEdge, IDEdgeSorted:
		for i := range ids {
			ids[i] = g.edgeU()
		}
		if style == IDEdgeSorted {
			sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		}
	case IDHigh:
		for i := range ids {
			ids[i] = math.MaxUint64 - uint64(g.Intn(3*n+1))
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	case IDSame:
		x := g.edgeU()
		for i := range ids {
			ids[i] = x
		}
	case IDDesc:
		for i := range ids {
			ids[i] = base + uint64(n-i)*uint64(pick(g, 1, 3))
		}
	case IDNearly: // sorted but for a few
		if n < 3 {
			return g.IDs(n, IDSeq)
		}
		x := uint64(1000)
		for i := range ids {
			x += uint64(g.Intn(3))
			ids[i] = x
		}
		for k := 0; k < 1+g.Intn(2); k++ {
			ids[1+g.Intn(n-2)] = pick(g, uint64(g.Intn(1000)), x+uint64(g.Intn(1000)), ids[g.Intn(n)])
		}
	case IDContainers:
		for i := range ids {
			ids[i] = uint64(i)*uint64(pick(g, 1, 65536, 65535, 1<<33)) + uint64(g.Intn(3))
		}
	}
	return ids
}

const (
	VSmall = iota
	VNeg
	VPos
	VEdge
	VSwing
	VConst
	VZig
	VRand
	VOutlier
	nValStyles
)

func (g Gen) Vals(n, style int) []int64 {
	vs := make([]int64, n)
	c := g.edgeI()
	for i := range vs {
		switch style {
		case VSmall:
			vs[i] = int64(g.Intn(200) - 100)
		case VNeg:
			vs[i] = -1 - int64(g.Intn(100000))
		case VPos:
			vs[i] = 1 + int64(g.Intn(100000))
		case VEdge:
			vs[i] = g.edgeI()
		case VSwing: // largest possible deltas
			if i%2 == 0 {
				vs[i] = math.MaxInt64 - int64(g.Intn(3))
			} else {
				vs[i] = math.MinInt64 + int64(g.Intn(3))
			}
		case VConst:
			vs[i] = c
		case VZig:
			vs[i] = int64(63+g.Intn(3)) * pick(g, int64(1), -1)
		case VRand:
			vs[i] = int64(g.Uint64())
		case VOutlier:
			vs[i] = c
		}
	}
	if style == VOutlier && n > 0 { // all the same but for a few
		for k := 0; k < 1+g.Intn(2); k++ {
			vs[g.Intn(n)] = pick(g, c-1, c+1, g.edgeI())
		}
	}
	return vs
}

func (g Gen) AnyIDs(n int) []uint64 { return g.IDs(n, g.Intn(nIDStyles)) }
func (g Gen) AnyVals(n int) []int64 { return g.Vals(n, g.Intn(nValStyles)) }

// Target draws a block size target: block sizes are multiples of 4096, less 64 for the first block.
func (g Gen) Target() uint32 {
	switch g.Intn(6) {
	case 0:
		return pick(g, uint32(0), 1, 64, 80, 100, 4031, 4032, 4033)
	case 1:
		return uint32(4096*(1+g.Intn(4)) - 64 + g.Intn(3) - 1)
	case 2, 3:
		return uint32(4096*(1+g.Intn(4)) + g.Intn(3) - 1)
	case 4:
		return pick(g, uint32(DefaultTarget), DefaultTarget, 65536, 1<<20)
	}
	return 4096
}

// BlockN draws a number of pairs around the capacity of pages.
func (g Gen) BlockN() int {
	switch g.Intn(5) {
	case 0:
		return 1 + g.Intn(4)
	case 1:
		return pick(g, 246, 247, 248, 249, 250, 251, 252, 253)
	case 2:
		return pick(g, 502, 503, 504, 505, 507, 508)
	case 3:
		return pick(g, 126, 127, 128, 129)
	}
	return 1 + g.Intn(300)
}

// FilterNear draws a filter related to the given ids.
func (g Gen) FilterNear(ids []uint64) Filter {
	f := Filter{Has: true}
	some := func() uint64 {
		if len(ids) == 0 {
			return g.edgeU()
		}
		return ids[g.Intn(len(ids))]
	}
	switch g.Intn(10) {
	case 0:
		return NoFilter
	case 1:
		return f // allows nothing
	case 2: // some present ids
		for i := 0; i < 1+g.Intn(8); i++ {
			f.IDs = append(f.IDs, some())
		}
	case 3: // all ids
		f.IDs = append(f.IDs, ids...)
	case 4: // all but some
		x := some()
		for _, id := range ids {
			if id != x {
				f.IDs = append(f.IDs, id)
			}
		}
	case 5: // neighbours of present ids
		for i := 0; i < 1+g.Intn(6); i++ {
			f.IDs = append(f.IDs, some()+uint64(pick(g, -1, 0, 1)))
		}
	case 6: // foreign ids
		for i := 0; i < 1+g.Intn(6); i++ {
			f.IDs = append(f.IDs, g.edgeU())
		}
	case 7: // an interval starting or ending at a present id
		x := some()
		w := uint64(g.Intn(400))
		if x > math.MaxUint64-w {
			w = math.MaxUint64 - x
		}
		f.Ivs = append(f.Ivs, [2]uint64{x, x + w})
	case 8: // about half
		for _, id := range ids {
			if g.Chance(2) {
				f.IDs = append(f.IDs, id)
			}
		}
	case 9: // one extreme id
		if len(ids) > 0 {
			m := ids[0]
			for _, id := range ids {
				if g.Chance(2) == (id > m) {
					m = id
				}
			}
			f.IDs = append(f.IDs, m+uint64(pick(g, 0, 0, 1, -1)))
		}
	}
	return f
}
