//go:build osrec

package main

import (
	"fmt"
	"math"
	"os"

	"verif/harness/vb"
)

/* Durability and failing operations with large blocks, and with very many of them. */

func init() {
	profiles["C15large"] = durableLarge
	profiles["C10large"] = faultsLarge
}

// longFile writes a file that is large in one way or another; each is called after each block.
func (c *Ctx) longFile(w *vb.Writer, kind int, each func()) {
	one := func(n int) {
		ids, vals := c.bigPairs(n, c.Intn(nBig))
		for tries := 0; tries < 4 && len(ids) > 0; tries++ {
			o, k := w.WriteBlock(ids, vals)
			if o != "full" || k <= 0 || k >= len(ids) {
				break
			}
			ids, vals = ids[k:], vals[k:]
		}
		each()
	}
	switch kind {
	case 0: // some blocks of any size
		for _, n := range c.bigSizes() {
			one(n)
		}
	case 1: // many small blocks
		for b := 40 + c.Intn(c.N(400, 1500)); b > 0; b-- {
			one(1 + c.Intn(4))
		}
	case 2: // blocks of growing size
		for n := 1 + c.Intn(300); n < 30000; n += n/2 + 1 {
			one(n)
		}
	case 3: // sections of a MiB
		one(140000 + c.Intn(20000))
		one(1 + c.Intn(1000))
	}
}

func durableLarge(c *Ctx) {
	labels := []string{"durable"}
	for kind := 0; kind < 4; kind++ {
		for k := 0; k < c.N(3, 10); k++ {
			c.Large(fmt.Sprintf("writer-%d", kind), labels, func(r *vb.Run) {
				vb.Watch(r.Path(""), false, r)
				defer vb.Unwatch()
				w := r.NewWriter("f", c.anyEnc(), []uint32{math.MaxUint32, 1 << 20, 1 << 16}[c.Intn(3)])
				if w == nil {
					return
				}
				c.longFile(w, kind, func() {
					if c.Chance(200) || kind != 1 && c.Chance(4) {
						w.Finalize(false)
					}
				})
				if c.Chance(2) {
					w.Finalize(true)
				} else {
					w.Finalize(false)
					w.Close()
				}
			})
		}
	}
	for k := 0; k < c.N(4, 16); k++ {
		c.Large("simple", labels, func(r *vb.Run) {
			vb.Watch(r.Path(""), false, r)
			defer vb.Unwatch()
			s := r.NewSimple("f", c.anyEnc(), []uint32{4096, 1 << 16, 1 << 22}[c.Intn(3)])
			if s == nil {
				return
			}
			for n := 1 + c.Intn(4); n > 0; n-- {
				ids, vals := c.bigPairs([]int{1 + c.Intn(2000), 5000 + c.Intn(20000), 40000}[c.Intn(3)], bigSet)
				s.Write(ids, vals)
			}
			s.Close()
		})
	}
	for k := 0; k < c.N(12, 60); k++ {
		c.Large("afterfault", labels, func(r *vb.Run) {
			vb.Watch(r.Path(""), false, r)
			defer vb.Unwatch()
			bs := []batch{c.bigBatch(1 + c.Intn(20000)), c.bigBatch(1 + c.Intn(1000))}
			kind := []string{"", "write", "sync"}[c.Intn(3)]
			at := 1 + c.Intn(3)
			if kind != "sync" {
				at = 1 + c.Intn(2*len(bs[0].ids)+40)
			}
			vb.FaultKind(kind, at, 1+c.Intn(2), faultModes[c.Intn(3)])
			writerScript(r, c.anyEnc(), math.MaxUint32, bs, policy(c.Intn(int(npolicies))), c.Chance(3))
			vb.NoFault()
		})
	}
}

func (c *Ctx) bigBatch(n int) batch {
	ids, vals := c.bigPairs(n, c.Intn(nBig))
	return batch{ids, vals}
}

func faultsLarge(c *Ctx) {
	labels := []string{"fault", "open", "dump", "sdump", "stotal", "bitmap", "aggm", "aggs"}
	one := func(name string, script func(r *vb.Run, p policy), limit int) {
		// How many writes, syncs, ... there are.
		g := c.Gen
		kinds := map[string]int{}
		size := int64(1)
		for _, kind := range []string{"write", "sync", "seek", "truncate", "close"} {
			r := vb.NewRun(c.Dir, name)
			r.Compress = true
			vb.Watch(r.Path(""), false, nil)
			vb.FaultKind(kind, 1<<30, 0, "err")
			script(r, retry)
			kinds[kind] = vb.OpCount()
			if st, err := os.Stat(r.Path("f")); err == nil {
				size = max(size, st.Size())
			}
			vb.Unwatch()
			r.Cleanup()
		}
		c.Gen = g
		// Any byte of the file.
		for i := 0; i < 2*limit; i++ {
			at := int64(c.Intn(int(size)))
			if c.Chance(8) {
				at -= at % 4096
			}
			mode, p, many := faultModes[c.Intn(4)], policy(c.Intn(int(npolicies))), 1+c.Intn(2)
			h := c.Gen
			c.Large(fmt.Sprintf("%s/at-%d-%s-%s-%d", name, at, mode, polName[p], many), labels, func(r *vb.Run) {
				vb.Watch(r.Path(""), false, nil)
				vb.FaultAt(at, many, mode)
				script(r, p)
				if hit := vb.NoFault(); hit != "" {
					c.Stats["fault.at."+mode]++
				}
				vb.Unwatch()
			})
			c.Gen = h
		}
		for _, kind := range []string{"write", "sync", "seek", "truncate", "close"} {
			n := kinds[kind]
			for i := 0; i < limit && i < n; i++ {
				k := 1 + i*n/min(limit, n)
				if limit < n {
					k += c.Intn(max(1, n/limit))
				}
				if k > n {
					k = n
				}
				if n-k < 3 || c.Chance(8) { // towards the ends
					k = []int{1 + c.Intn(min(30, n)), n - c.Intn(min(30, n))}[c.Intn(2)]
				}
				mode, p := faultModes[c.Intn(4)], policy(c.Intn(int(npolicies)))
				many := 1
				if c.Chance(4) {
					many = 2 + c.Intn(2000)
				}
				h := c.Gen
				c.Large(fmt.Sprintf("%s/%s-%d-%s-%s-%d", name, kind, k, mode, polName[p], many), labels, func(r *vb.Run) {
					vb.Watch(r.Path(""), false, nil)
					vb.FaultKind(kind, k, many, mode)
					script(r, p)
					if hit := vb.NoFault(); hit != "" {
						c.Stats["fault."+hit+"."+mode]++
					}
					vb.Unwatch()
				})
				c.Gen = h
			}
		}
	}
	for i := 0; i < c.N(5, 24); i++ {
		c.Gen = vb.NewGen(c.Seed*10007 + int64(i))
		enc := uint32((i + int(c.Seed)) % 8)
		var bs []batch
		for b := 1 + c.Intn(3); b > 0; b-- {
			bs = append(bs, c.bigBatch([]int{1 + c.Intn(20), 1000 + c.Intn(4000), 4097 + c.Intn(9000)}[c.Intn(3)]))
		}
		bs = append(bs, c.bigBatch(1025+c.Intn(3000)))
		target := []uint32{math.MaxUint32, 1 << 15}[c.Intn(2)]
		one(fmt.Sprintf("writer%d-enc%d", i, enc), func(r *vb.Run, p policy) {
			if writerScript(r, enc, target, bs, p, i%3 == 2) {
				vb.NoFault()
				verify(r, nil)
			}
		}, c.N(5, 40))
	}
	for i := 0; i < c.N(2, 10); i++ {
		c.Gen = vb.NewGen(c.Seed*20011 + int64(i))
		enc := uint32((i*3 + int(c.Seed)) % 8)
		var bs []batch
		for b := 1 + c.Intn(3); b > 0; b-- {
			ids, vals := c.bigPairs([]int{900 + c.Intn(300), 1000 + c.Intn(9000)}[c.Intn(2)], bigSet)
			bs = append(bs, batch{ids, vals})
		}
		one(fmt.Sprintf("simple%d-enc%d", i, enc), func(r *vb.Run, p policy) {
			if s, ok := simpleScript(r, enc, []uint32{4096, 1 << 16}[i%2], bs, p); ok {
				vb.NoFault()
				verify(r, s)
			}
		}, c.N(5, 40))
	}
	// Very many blocks: the index is long.
	for i := 0; i < c.N(1, 3); i++ {
		c.Gen = vb.NewGen(c.Seed*30011 + int64(i))
		var bs []batch
		for b := 70 + c.Intn(100); b > 0; b-- {
			bs = append(bs, c.bigBatch(1+c.Intn(3)))
		}
		enc := c.anyEnc()
		one(fmt.Sprintf("blocks%d-enc%d", i, enc), func(r *vb.Run, p policy) {
			if writerScript(r, enc, 4096, bs, p, i%2 == 1) {
				vb.NoFault()
				verify(r, nil)
			}
		}, c.N(5, 40))
	}
}
