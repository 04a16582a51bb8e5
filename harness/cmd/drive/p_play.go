package main

import (
	"fmt"

	"verif/harness/vb"
)

func init() { profiles["play"] = play }

// Labels of the facts that belong to a property, for behaviours that TLC chose (spec/GenVibeCol.tla).
var playLabels = map[string][]string{
	"C01": {"write", "open", "dump", "pairs"},
	"C02": {"pack", "est", "cap", "sizes", "write"},
	"C03": {"sdump", "stotal", "argsame", "sclosed", "write", "open"},
	"C04": {"aggm", "aggs", "stats", "write", "open"},
	"C05": {"aggf", "iter", "write", "open"},
	"C06": {"par", "write", "open"},
	"C07": {"multi", "write", "open", "aggm", "bitmap"},
	"C08": {"bitmap", "write", "open"},
	"C13": {"reject", "write", "open", "dump", "sdump", "stotal", "sclosed", "argsame", "bitmap", "aggm", "desc", "range"},
	"C16": {"zero", "write", "open"},
	"C17": {"nomut", "write", "open", "dump", "pairs", "bitmap", "aggm", "aggs", "aggf", "aggp", "iter", "multi", "same"},
	"C19": {"write", "open", "dump", "sdump", "stotal", "aggm", "aggs", "aggf", "aggp", "bitmap", "multi", "desc", "argsame", "pack"},
	"C20": {"desc", "range", "pairs", "write", "open"},
}

// Call is one call of a behaviour.
type Call struct {
	Op              string
	W, S, Rd, M     int
	F               string
	Enc, Target     uint32
	Ids, Vals       []vb.W
	Close, On, Skip bool
	Scribble        bool
	B, Par          int
	Allow, Deny     vb.JSONFilter
	Rds             []int
}

func play(c *Ctx) {
	var in struct {
		Mix   string
		Files []string
	}
	load(c.In, &in)
	labels := playLabels[in.Mix]
	for i, f := range in.Files {
		var calls []Call
		load(f, &calls)
		c.Run(fmt.Sprintf("play-%d", i), labels, func(r *vb.Run) { c.playOne(r, calls) })
	}
}

func (c *Ctx) playOne(r *vb.Run, calls []Call) {
	ws, ss := map[int]*vb.Writer{}, map[int]*vb.Simple{}
	rds, ms := map[int]*vb.Reader{}, map[int]*vb.Multi{}
	owner := map[string]*vb.Simple{} // file -> the simple writer that wrote it
	files := []string{}
	held := []func(){}
	open := func(file string) *vb.Reader {
		rd := r.Open(file)
		if rd == nil {
			return nil
		}
		// Which blocks a simple writer makes is its own choice; they are adopted from what it wrote.
		if s := owner[file]; s != nil && !rd.Dump(s) {
			rd.Close()
			return nil
		}
		return rd
	}
	for _, k := range calls {
		ids, vals := vb.Us(k.Ids), vb.Is(k.Vals)
		w, s, rd, m := ws[k.W], ss[k.S], rds[k.Rd], ms[k.M]
		switch k.Op {
		case "wnew":
			if w := r.NewWriter(k.F, k.Enc, k.Target); w != nil {
				ws[k.W] = w
				owner[k.F] = nil
				files = append(files, k.F)
			}
			continue
		case "snew":
			if s := r.NewSimple(k.F, k.Enc, k.Target); s != nil {
				ss[k.S] = s
				owner[k.F] = s
				files = append(files, k.F)
			}
			continue
		case "open":
			if rd := open(k.F); rd != nil {
				rds[k.Rd] = rd
			}
			continue
		case "mnew":
			list := []*vb.Reader{}
			for _, i := range k.Rds {
				if rds[i] != nil {
					list = append(list, rds[i])
				}
			}
			ms[k.M] = r.NewMulti(list...)
			continue
		case "magg":
			m.Aggregate(k.Skip, k.Allow.Filter())
			continue
		}
		switch {
		case w != nil:
			switch k.Op {
			case "wblock":
				w.WriteBlock(ids, vals)
			case "west":
				w.Estimate(ids, vals)
			case "wfin":
				w.Finalize(k.Close)
			}
		case s != nil:
			switch k.Op {
			case "swrite":
				s.Write(ids, vals)
			case "starget":
				s.SetTarget(int(k.Target))
			case "sclose":
				s.Close()
			}
		case rd != nil:
			switch k.Op {
			case "rclose":
				rd.Close()
			case "cache":
				rd.Caching(k.On)
			case "dump":
				rd.Dump(nil)
			case "desc":
				rd.Describe()
			case "bitmap":
				rd.Bitmap()
			case "pairs":
				rd.Pairs(uint64(k.B), k.Scribble)
			case "hold":
				held = append(held, rd.Hold(uint64(k.B)))
			case "agg":
				rd.Aggregate(vb.AggOpts{Skip: k.Skip, Par: k.Par, Allow: k.Allow.Filter(), Deny: k.Deny.Filter()})
			case "iter":
				rd.Iterator(k.Allow.Filter(), k.Deny.Filter())
			}
		}
	}
	for _, f := range held {
		f()
	}
	// The end: everything is closed; every file is looked at once more.
	for i := 0; i <= len(calls); i++ {
		if w := ws[i]; w != nil && w.Open() {
			w.Finalize(true)
		}
		if s := ss[i]; s != nil && !s.S.IsClosed() {
			s.Close()
		}
	}
	sortStrings(files)
	for i, f := range files {
		if i > 0 && files[i-1] == f {
			continue
		}
		if rd := open(f); rd != nil {
			rd.Dump(nil)
			rd.Describe()
			rd.Aggregate(vb.AggOpts{})
			rd.Aggregate(vb.AggOpts{Skip: true})
			rd.Bitmap()
			rd.Close()
		}
	}
}
