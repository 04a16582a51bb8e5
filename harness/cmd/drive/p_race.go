package main

import (
	"fmt"
	"math"
	"sync"

	"verif/harness/vb"
)

func init() {
	profiles["C12"] = concurrent
	profiles["C19race"] = apart
}

// together runs the functions in goroutines of their own that start at the same time.
func together(fs ...func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
}

// concurrent shares readers, multi-file readers and filters between goroutines, and uses independent
// writers at the same time.
func concurrent(c *Ctx) {
	labels := []string{"write", "open", "dump", "sdump", "pairs", "desc", "aggm", "aggs", "aggf", "aggp", "par", "iter", "bitmap", "multi", "nomut", "range", "pack", "stotal"}
	type shared struct {
		rds        []*vb.Reader
		multis     []*vb.Multi
		allow, den vb.Filter
		ids        []uint64
	}
	setup := func(r *vb.Run) *shared {
		s := &shared{}
		for f := 0; f < 1+c.Intn(3); f++ {
			name := fmt.Sprint("f", f)
			if c.Chance(2) {
				s.ids = append(s.ids, c.shapedFile(r, name, 1+c.Intn(6))...)
			} else {
				s.ids = append(s.ids, c.smallFile(r, name, c.anyEnc(), 1+c.Intn(4), 30)...)
			}
			rd := r.Open(name)
			if rd == nil {
				return nil
			}
			if c.Chance(3) {
				rd.Caching(true)
			}
			s.rds = append(s.rds, rd)
		}
		s.multis = append(s.multis, r.NewMulti(s.rds...), r.NewMulti(s.rds[0]))
		s.allow, s.den = c.FilterNear(s.ids).Keep(), c.FilterNear(s.ids).Keep()
		return s
	}
	act := func(g *Ctx, s *shared, what int) {
		rd := s.rds[g.Intn(len(s.rds))]
		switch what {
		case 0:
			rd.Bitmap()
		case 1:
			rd.Caching(g.Chance(2))
			rd.Bitmap()
		case 2:
			if n := rd.NBlocks(); n > 0 {
				rd.Pairs(uint64(g.Intn(n)), g.Chance(2))
			}
			rd.Pairs(math.MaxUint64, false)
		case 3:
			rd.Dump(nil)
		case 4:
			rd.Aggregate(vb.AggOpts{Skip: g.Chance(2)})
		case 5:
			rd.Aggregate(vb.AggOpts{Skip: g.Chance(2), Par: 1 + g.Intn(4)})
		case 6:
			rd.Aggregate(vb.AggOpts{Skip: g.Chance(2), Allow: s.allow, Deny: s.den, Par: g.Intn(4)})
		case 7:
			rd.Iterator(s.allow, s.den)
		case 8:
			s.multis[g.Intn(2)].Aggregate(g.Chance(2), vb.NoFilter)
		case 9:
			s.multis[g.Intn(2)].Aggregate(g.Chance(2), s.allow)
		case 10:
			rd.Describe()
		}
	}
	const kinds = 11
	sub := func() *Ctx { return &Ctx{Gen: vb.NewGen(c.Int63())} }
	// Any mix.
	for k := 0; k < c.N(60, 500); k++ {
		c.Run("mix", labels, func(r *vb.Run) {
			s := setup(r)
			if s == nil {
				return
			}
			var fs []func()
			for t := 0; t < 3+c.Intn(5); t++ {
				g := sub()
				fs = append(fs, func() {
					for q := 0; q < 6; q++ {
						act(g, s, g.Intn(kinds))
					}
				})
			}
			together(fs...)
		})
	}
	// Each kind of call against each other on fresh readers: first uses meet.
	for a := 0; a < kinds; a++ {
		for b := a; b < kinds; b++ {
			for k := 0; k < c.N(1, 6); k++ {
				a, b := a, b
				c.Run(fmt.Sprintf("pair-%d-%d", a, b), labels, func(r *vb.Run) {
					s := setup(r)
					if s == nil {
						return
					}
					fs := []func(){}
					for t := 0; t < 4; t++ {
						g, what := sub(), a
						if t%2 == 1 {
							what = b
						}
						fs = append(fs, func() { act(g, s, what); act(g, s, what) })
					}
					together(fs...)
				})
			}
		}
	}
	// Writers and readers of different files at the same time.
	for k := 0; k < c.N(20, 150); k++ {
		c.Run("writers", labels, func(r *vb.Run) {
			s := setup(r)
			if s == nil {
				return
			}
			var fs []func()
			for t := 0; t < 4; t++ {
				g, name := sub(), fmt.Sprint("w", t)
				fs = append(fs, func() {
					switch t := g.Intn(3); {
					case t == 0:
						g.smallFile(r, name, g.anyEnc(), 1+g.Intn(4), 40)
						if rd := r.Open(name); rd != nil {
							rd.Dump(nil)
							rd.Bitmap()
							rd.Aggregate(vb.AggOpts{})
							rd.Close()
						}
					case t == 1:
						w := r.NewSimple(name, g.anyEnc(), 4096)
						for b := 0; b < 2; b++ {
							ids, vals := g.pairs(1+g.Intn(600), 99, 99)
							w.Write(ids, vals)
						}
						w.Close()
						if rd := r.Open(name); rd != nil {
							rd.Dump(w)
							rd.Bitmap()
							rd.Aggregate(vb.AggOpts{Skip: true})
							rd.Close()
						}
					default:
						for q := 0; q < 4; q++ {
							act(g, s, g.Intn(kinds))
						}
					}
				})
			}
			together(fs...)
		})
	}
}

// apart works with objects of its own in each goroutine: writers, simple writers, readers and filters of
// different files, with no synchronization between them.
func apart(c *Ctx) {
	labels := []string{"write", "open", "dump", "sdump", "stotal", "aggm", "aggs", "aggf", "aggp", "bitmap", "multi", "desc", "argsame", "pack", "est", "iter", "pairs", "reject"}
	life := func(g *Ctx, r *vb.Run, name string) {
		for q := 0; q < 1+g.Intn(3); q++ {
			f := fmt.Sprint(name, q%2) // its own path may come again
			var s *vb.Simple
			var all []uint64
			switch g.Intn(3) {
			case 0:
				w := r.NewWriter(f, g.anyEnc(), g.Target())
				for b := 0; b < 1+g.Intn(5); b++ {
					ids, vals := g.pairs(1+g.Intn(50), 99, 99)
					all = append(all, ids...)
					if g.Chance(2) {
						w.Estimate(ids, vals)
					}
					w.WriteAll(ids, vals)
					if g.Chance(3) {
						w.WriteBlock(ids, vals[1:])
					}
					if g.Chance(4) {
						w.Finalize(false)
					}
				}
				w.Finalize(true)
			case 1:
				s = r.NewSimple(f, g.anyEnc(), 4096)
				for b := 0; b < 1+g.Intn(3); b++ {
					ids, vals := g.pairs(1+g.Intn(500), 99, 99)
					all = append(all, ids...)
					s.Write(ids, vals)
				}
				s.Close()
			default:
				all = g.smallFile(r, f, g.anyEnc(), 1+g.Intn(4), 40)
			}
			rd := r.Open(f)
			if rd == nil {
				return
			}
			rd.Dump(s)
			for k := 0; k < 4; k++ {
				switch g.Intn(6) {
				case 0:
					rd.Aggregate(vb.AggOpts{Skip: g.Chance(2), Par: g.Intn(3)})
				case 1:
					rd.Aggregate(vb.AggOpts{Allow: g.FilterNear(all), Deny: g.FilterNear(all), Par: g.Intn(3)})
				case 2:
					rd.Iterator(g.FilterNear(all), g.FilterNear(all))
				case 3:
					rd.Caching(g.Chance(2))
					rd.Bitmap()
				case 4:
					r.NewMulti(rd).Aggregate(g.Chance(2), g.FilterNear(all))
				case 5:
					rd.Describe()
					rd.Pairs(0, g.Chance(2))
				}
			}
			rd.Close()
		}
	}
	for k := 0; k < c.N(40, 400); k++ {
		c.Run("apart", labels, func(r *vb.Run) {
			var fs []func()
			for t := 0; t < 2+c.Intn(5); t++ {
				g, name := &Ctx{Gen: vb.NewGen(c.Int63())}, fmt.Sprint("g", t, "-")
				fs = append(fs, func() { life(g, r, name) })
			}
			together(fs...)
		})
	}
}
