// Package vb drives the real vibe-col library and records what it does as traces that the TLA+
// specification (spec/TraceVibeCol.tla) validates.
package vb

import (
	"math"

	"github.com/weaviate/sroar"
)

// W is a 64-bit word as the limbs of spec/Words.tla (22, 21 and 21 bits).
type W [3]int

const lb = 1 << 21

func WU(u uint64) W   { return W{int(u >> 42), int(u>>21) % lb, int(u % lb)} }
func WI(i int64) W    { return WU(uint64(i)) }
func (w W) U() uint64 { return uint64(w[0])<<42 | uint64(w[1])<<21 | uint64(w[2]) }

func WUs(us []uint64) []W {
	r := make([]W, len(us))
	for i, u := range us {
		r[i] = WU(u)
	}
	return r
}

func WIs(is []int64) []W {
	r := make([]W, len(is))
	for i, u := range is {
		r[i] = WI(u)
	}
	return r
}

// Small clamps a number into what a TLC integer can hold (-9: does not fit).
func Small(n int64) int {
	if n < -1000 || n > math.MaxInt32-1 {
		return -9
	}
	return int(n)
}

// Filter is a set of ids: single ids and closed intervals, or absent.
type Filter struct {
	Has bool
	IDs []uint64
	Ivs [][2]uint64
	obj *sroar.Bitmap
}

// Keep makes all uses of the filter share one bitmap object.
func (f Filter) Keep() Filter {
	f.obj = f.fresh()
	return f
}

var NoFilter = Filter{}

func FilterOf(ids ...uint64) Filter { return Filter{Has: true, IDs: ids} }

func (f Filter) fresh() *sroar.Bitmap {
	if !f.Has {
		return nil
	}
	b := sroar.NewBitmap()
	for _, id := range f.IDs {
		b.Set(id)
	}
	for _, iv := range f.Ivs {
		for id := iv[0]; ; id++ {
			b.Set(id)
			if id == iv[1] {
				break
			}
		}
	}
	return b
}

func (f Filter) JSON() map[string]any {
	ivs := make([][2]W, len(f.Ivs))
	for i, iv := range f.Ivs {
		ivs[i] = [2]W{WU(iv[0]), WU(iv[1])}
	}
	return map[string]any{"has": f.Has, "ids": WUs(f.IDs), "ivs": ivs}
}

// same tells whether a bitmap still holds exactly what f says.
func (f Filter) same(b *sroar.Bitmap) bool {
	if !f.Has {
		return b == nil
	}
	want := f.fresh().ToArray()
	got := b.ToArray()
	if len(want) != len(got) {
		return false
	}
	for i := range want {
		if want[i] != got[i] {
			return false
		}
	}
	return true
}

// Us and Is are the inverses of WUs and WIs.
func Us(ws []W) []uint64 {
	r := make([]uint64, len(ws))
	for i, w := range ws {
		r[i] = w.U()
	}
	return r
}

func Is(ws []W) []int64 {
	r := make([]int64, len(ws))
	for i, w := range ws {
		r[i] = int64(w.U())
	}
	return r
}

// JSONFilter is a filter as the specification writes it down.
type JSONFilter struct {
	Has bool
	Ids []W
	Ivs [][2]W
}

func (f JSONFilter) Filter() Filter {
	r := Filter{Has: f.Has, IDs: Us(f.Ids)}
	if len(r.IDs) == 0 {
		r.IDs = nil
	}
	for _, iv := range f.Ivs {
		r.Ivs = append(r.Ivs, [2]uint64{iv[0].U(), iv[1].U()})
	}
	return r
}
