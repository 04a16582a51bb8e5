package main

import (
	"fmt"

	"verif/harness/vb"
)

func init() { profiles["small"] = small }

// small makes every file that spec/GenSmall.tla lists.
func small(c *Ctx) {
	var in struct {
		Mix  string
		File string
	}
	load(c.In, &in)
	var s struct {
		Files     [][][]int
		Ids, Vals [][]vb.W
		Filters   [][]int
	}
	load(in.File, &s)
	labels := playLabels[in.Mix]
	nf := len(s.Filters) + 1
	rounds := 1
	if c.Thorough {
		rounds = 4
	}
	for round := 0; round < rounds; round++ {
		turn := uint64(c.Seed)*7919 + uint64(round)*104729
		for i, f := range s.Files {
			h := (uint64(i) + turn) * 0x9E3779B97F4A7C15
			pal := vb.Us(s.Ids[(uint64(i)+turn)%uint64(len(s.Ids))])
			vals := vb.Is(s.Vals[(h>>33)%uint64(len(s.Vals))])
			enc := uint32(h >> 40 % 8)
			filter := func(k uint64) vb.Filter { // the k-th filter over the palette
				k %= uint64(nf)
				if k == 0 {
					return vb.NoFilter
				}
				f := vb.Filter{Has: true}
				for _, x := range s.Filters[k-1] {
					f.IDs = append(f.IDs, pal[x-1])
				}
				return f
			}
			// Successive files and queries go through all pairs of filters.
			q := h >> 20
			next := func() (vb.Filter, vb.Filter) {
				q += 4001
				return filter(q / uint64(nf)), filter(q)
			}
			c.Run(fmt.Sprintf("small-%d-%d", round, i), labels, func(r *vb.Run) {
				n := int(h >> 50 % 5)
				write := func(w *vb.Writer, block []int) {
					ids, vs := []uint64{}, []int64{}
					for _, x := range block {
						ids = append(ids, pal[x])
						vs = append(vs, vals[n%len(vals)])
						n++
					}
					w.WriteBlock(ids, vs)
				}
				if in.Mix == "C07" { // every block a file
					rds := []*vb.Reader{}
					for j, b := range f {
						name := fmt.Sprint("f", j)
						w := r.NewWriter(name, (enc+uint32(j))%8, 4096)
						write(w, b)
						if len(b) > 1 && h>>55%2 == 0 { // one block more
							write(w, b[:1])
						}
						w.Finalize(true)
						rd := r.Open(name)
						if rd == nil {
							return
						}
						rd.Caching(h>>(56+j)%2 == 0)
						rds = append(rds, rd)
					}
					if len(rds) == 1 {
						rds = append(rds, rds[0])
					}
					m := r.NewMulti(rds...)
					m.Aggregate(false, vb.NoFilter)
					m.Aggregate(true, vb.NoFilter)
					for k := 0; k < 6; k++ {
						a, _ := next()
						m.Aggregate(k%2 == 0, a)
					}
					return
				}
				w := r.NewWriter("f", enc, 4096)
				for _, b := range f {
					write(w, b)
				}
				w.Finalize(true)
				rd := r.Open("f")
				if rd == nil {
					return
				}
				switch in.Mix {
				case "C01":
					rd.Dump(nil)
				case "C04":
					rd.Aggregate(vb.AggOpts{})
					rd.Aggregate(vb.AggOpts{Skip: true})
					if len(f) == 1 && i%9 == 0 {
						r.Image("f")
					}
				case "C08":
					rd.Bitmap()
					rd.Caching(true)
					rd.Bitmap()
					rd.Bitmap()
				case "C05", "C16":
					for k := 0; k < 10; k++ {
						a, d := next()
						rd.Aggregate(vb.AggOpts{Skip: k%2 == 0, Allow: a, Deny: d})
						if in.Mix == "C05" && k%2 == 0 {
							rd.Iterator(a, d)
						}
						if in.Mix == "C16" && k%3 == 0 {
							rd.Aggregate(vb.AggOpts{Skip: k%2 == 0, Allow: a, Deny: d, Par: 1 + k})
						}
					}
				case "C06":
					for _, p := range []int{1, 2, 3, 4, -1} {
						a, d := next()
						rd.Aggregate(vb.AggOpts{Skip: p%2 == 0, Par: p})
						rd.Aggregate(vb.AggOpts{Skip: p%2 == 1, Par: p, Allow: a, Deny: d})
					}
				}
				rd.Close()
			})
		}
	}
}
