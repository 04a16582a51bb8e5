package vb

import (
	"encoding/json"
	"math"
	"sort"

	"vibe-lsm/pkg/col"
)

// Seg is an arithmetic progression in one direction: S, S+D, ..., N elements (spec/Runs.tla).
type Seg struct {
	S, D W
	N    int
}

func (s Seg) MarshalJSON() ([]byte, error) { return json.Marshal([]any{s.S, s.D, s.N}) }

func cmpU(a, b uint64) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func cmpI(a, b int64) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

// compress cuts both columns at the same places, as late as possible from left to right.
func compress(ids []uint64, vals []int64) (ci, cv []Seg) {
	ci, cv = []Seg{}, []Seg{}
	for i := 0; i < len(ids); {
		j := i + 1
		var di uint64
		var dv int64
		if j < len(ids) {
			di, dv = ids[j]-ids[i], vals[j]-vals[i]
			ui, uv := cmpU(ids[i], ids[j]), cmpI(vals[i], vals[j])
			for j++; j < len(ids) && ids[j]-ids[j-1] == di && vals[j]-vals[j-1] == dv &&
				cmpU(ids[j-1], ids[j]) == ui && cmpI(vals[j-1], vals[j]) == uv; j++ {
			}
		}
		ci = append(ci, Seg{WU(ids[i]), WU(di), j - i})
		cv = append(cv, Seg{WI(vals[i]), WI(dv), j - i})
		i = j
	}
	return
}

// cols is a pair of columns as the trace records them.
func (r *Run) cols(ids []uint64, vals []int64) (any, any) {
	if !r.Compress {
		return WUs(ids), WIs(vals)
	}
	if len(ids) == len(vals) {
		return compress2(compress(ids, vals))
	}
	a, _ := compress(ids, make([]int64, len(ids)))
	_, b := compress(make([]uint64, len(vals)), vals)
	return a, b
}

func compress2(a, b []Seg) (any, any) { return a, b }

// bag is cols of a batch whose order does not matter.
func (r *Run) bag(ids []uint64, vals []int64, ties bool) (any, any) {
	if !r.Compress {
		return r.cols(ids, vals)
	}
	if len(ids) != len(vals) { // refused, whatever it holds
		return r.cols(make([]uint64, len(ids)), make([]int64, len(vals)))
	}
	k := make([]int, len(ids))
	for i := range k {
		k[i] = i
	}
	sort.SliceStable(k, func(i, j int) bool {
		a, b := k[i], k[j]
		return ids[a] < ids[b] || ties && ids[a] == ids[b] && vals[a] < vals[b]
	})
	si, sv := make([]uint64, len(ids)), make([]int64, len(ids))
	for i, x := range k {
		si[i], sv[i] = ids[x], vals[x]
		if i > 0 && !ties && si[i] == si[i-1] && sv[i] != sv[i-1] {
			panic("a large batch with an ambiguous order")
		}
	}
	return r.cols(si, sv)
}

// untie puts pairs of equal ids that follow each other in the order of their values, also across blocks.
func untie(ids [][]uint64, vals [][]int64) {
	var at []*int64
	var of []uint64
	for b := range ids {
		for i := range ids[b] {
			at, of = append(at, &vals[b][i]), append(of, ids[b][i])
		}
	}
	for i := 0; i < len(of); {
		j := i
		var vs []int64
		for ; j < len(of) && of[j] == of[i]; j++ {
			vs = append(vs, *at[j])
		}
		sort.Slice(vs, func(a, b int) bool { return vs[a] < vs[b] })
		for k, v := range vs {
			*at[i+k] = v
		}
		i = j
	}
}

// intervals are the maximal intervals of an increasing sequence of ids.
func intervals(ids []uint64) [][2]W {
	out := [][2]W{}
	for i := 0; i < len(ids); {
		j := i + 1
		for j < len(ids) && ids[j] == ids[j-1]+1 {
			j++
		}
		out = append(out, [2]W{WU(ids[i]), WU(ids[j-1])})
		i = j
	}
	return out
}

// set is an increasing sequence of ids as the trace records it.
func (r *Run) set(ids []uint64) any {
	if !r.Compress {
		return WUs(ids)
	}
	for i := 1; i < len(ids); i++ {
		if ids[i] <= ids[i-1] { // not a set
			return []Seg{}
		}
	}
	return intervals(ids)
}

// filt is a filter as the trace records it.
func (r *Run) filt(f Filter) map[string]any {
	if !r.Compress {
		return f.JSON()
	}
	ivs := [][2]W{}
	if f.Has {
		ivs = intervals(f.fresh().ToArray())
	}
	return map[string]any{"has": f.Has, "ivs": ivs}
}

// clamp is a target size in the range of TLC's integers: no block is larger.
func clamp(n uint32) int {
	if n > math.MaxInt32 {
		return math.MaxInt32
	}
	return int(n)
}

// progressions writes an increasing list of numbers as <<first, step, count>>.
func progressions(l []uint64) [][3]int {
	out := [][3]int{}
	for i := 0; i < len(l); {
		j, d := i+1, uint64(1)
		if j < len(l) {
			for d = l[j] - l[i]; j < len(l) && l[j]-l[j-1] == d; j++ {
			}
		}
		if d > 1<<30 || d == 0 || l[i] > 1<<30 {
			return [][3]int{{-9, 1, 1}}
		}
		out = append(out, [3]int{int(l[i]), int(d), j - i})
		i = j
	}
	return out
}

/* Files of very many blocks (see TraceRuns.tla). */

// Bulk writes a file of blocks of k pairs.
func (r *Run) Bulk(file string, enc uint32, k int, ids []uint64, vals []int64) bool {
	ok := true
	p := r.call("bulk", func() {
		w, err := col.NewWriter(r.Path(file), col.WithEncoding(enc), col.WithBlockSize(1<<20))
		if err != nil {
			ok = false
			return
		}
		for i := 0; i < len(ids) && ok; i += k {
			j := min(i+k, len(ids))
			ok = w.WriteBlock(ids[i:j], vals[i:j]) == nil
		}
		ok = w.FinalizeAndClose() == nil && ok
	})
	if ok = ok && !p; ok {
		ci, cv := r.cols(ids, vals)
		r.Add(Ev{"op": "bulk", "f": file, "enc": int(enc), "target": 1 << 20, "k": k, "ids": ci, "vals": cv})
	}
	return ok
}

// BulkRead reads all blocks of such a file.
func (rd *Reader) BulkRead() {
	var ids []uint64
	var vals []int64
	sizes := map[int]bool{}
	o, n := "ok", rd.NBlocks()
	for b := 0; b < n; b++ {
		i, v, ro := rd.pairs(uint64(b))
		if ro != "ok" || len(i) != len(v) {
			o = "err"
			break
		}
		if b < n-1 {
			sizes[len(i)] = true
		}
		ids, vals = append(ids, i...), append(vals, v...)
	}
	l := []int{}
	for s := range sizes {
		l = append(l, s)
	}
	sort.Ints(l)
	ci, cv := rd.r.cols(ids, vals)
	rd.r.Add(Ev{"op": "bread", "rd": rd.ID, "r": o, "nblocks": n, "sizes": l, "ids": ci, "vals": cv})
}

// BulkPairs is Pairs of such a file.
func (rd *Reader) BulkPairs(b uint64) {
	rd.Pairs(b, false)
	rd.r.Ev[len(rd.r.Ev)-1]["op"] = "bpairs"
}

// BulkIterator is Iterator of such a file.
func (rd *Reader) BulkIterator(allow, deny Filter) {
	a, d := takeBitmap(allow), takeBitmap(deny)
	defer func() { giveBitmap(deny, d); giveBitmap(allow, a) }()
	var l []uint64
	p := rd.r.call("FilteredBlockIterator", func() { l = rd.R.FilteredBlockIterator(a, d) })
	list := progressions(l)
	if p {
		list = [][3]int{{-9, 1, 1}}
	}
	rd.r.Add(Ev{"op": "biter", "rd": rd.ID, "allow": rd.r.filt(allow), "deny": rd.r.filt(deny), "list": list,
		"mut": !allow.same(a) || !deny.same(d)})
}
