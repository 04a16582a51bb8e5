//go:build osrec

package main

import (
	"fmt"
	"strings"

	"verif/harness/vb"
)

func init() { profiles["faultplay"] = faultPlay }

// Histories of calls and failing operations that TLC chose (spec/GenFaults.tla).
type faultHist struct {
	Simple bool
	Calls  []struct {
		Op string
		It int
		F  []struct {
			K, A, M string
			Left    int
		}
	}
}

// arm makes an operation of the next call fail.
func (c *Ctx) arm(h *faultHist, n, blocks int) bool {
	call := h.Calls[n]
	if len(call.F) == 0 {
		vb.NoFault()
		return false
	}
	f := call.F[0]
	mode, k := f.M, 1
	final := call.Op == "fin" || call.Op == "finclose" || call.Op == "sclose"
	switch f.K {
	case "write":
		switch f.A {
		case "h":
			k = 1 + c.Intn(10)
		case "b":
			k = 11 + c.Intn(12)
		case "bitmap":
			k = 1 + c.Intn(2)
		case "header":
			k = 3 + c.Intn(10)
		case "index":
			k = 13 + c.Intn(3+8*blocks)
		case "M":
			k = 13 + 8*blocks + c.Intn(5)
		}
		if final && h.Simple {
			k += c.Intn(40)
		}
		if mode == "part" && c.Chance(2) {
			mode = "short"
		}
	case "truncate", "trunc":
		f.K = "truncate"
	case "seek", "seekend":
		f.K = "seek"
		k = 1 + c.Intn(4)
	case "sync":
		k = 1
		if final && (f.Left <= 1 || h.Simple) {
			k = 2
		}
		if h.Simple {
			k = 1 + c.Intn(3)
		}
	}
	if mode == "lost" {
		mode = "err"
	}
	many := 1
	if c.Chance(6) {
		many = 1 + c.Intn(30)
	}
	vb.FaultKind(f.K, k, many, mode)
	return true
}

// faultPlay makes the histories; with peek, every state of the file in between is looked at.
func faultPlay(c *Ctx) {
	var in struct {
		Mix   string
		Files []string
	}
	load(c.In, &in)
	labels := map[string][]string{
		"C01": {"open", "dump", "sdump", "pairs"},
		"C02": {"pack", "sizes", "cap"},
		"C03": {"open", "sdump", "stotal"},
		"C04": {"stats", "aggm", "aggs"},
		"C08": {"bitmap"},
		"C09": {"crash"},
		"C10": {"fault", "open", "dump", "sdump", "stotal", "bitmap", "aggm", "aggs"},
		"C11": {"layout"},
		"C13": {"reject", "range", "stotal", "sclosed"},
		"C15": {"durable"},
		"C20": {"desc"},
		"C22": {"held"},
	}[in.Mix]
	for i, file := range in.Files {
		var h faultHist
		load(file, &h)
		c.Run(fmt.Sprintf("faults-%d", i), labels, func(r *vb.Run) { c.faultOne(r, &h, in.Mix) })
	}
}

// inspect looks at the finished file: as users see it, and at its bytes.
func (c *Ctx) inspect(r *vb.Run, s *vb.Simple, mix string) {
	switch mix {
	case "C09", "C15":
		return
	case "C10":
		verify(r, s)
		return
	case "C22":
		r.Held()
		return
	}
	rd := r.Open("f")
	if rd == nil {
		return
	}
	rd.Dump(s)
	rd.Describe()
	for b := 0; b <= rd.NBlocks(); b++ {
		rd.Pairs(uint64(b), false)
	}
	rd.Bitmap()
	rd.Aggregate(vb.AggOpts{})
	rd.Aggregate(vb.AggOpts{Skip: true})
	rd.Close()
	if mix == "C02" || mix == "C04" || mix == "C11" {
		r.Image("f")
	}
}

// refused makes calls that are not allowed between those of a history.
func (c *Ctx) refused(w *vb.Writer, s *vb.Simple) {
	ids, vals := c.pairs(2, 99, 99)
	switch c.Intn(4) {
	case 0:
		ids, vals = nil, nil
	case 1:
		vals = vals[:1]
	case 2:
		ids, vals = ids[:1], nil
	case 3:
		if s != nil && !s.S.IsClosed() || w != nil && w.Open() {
			ids = ids[:1] // otherwise a proper block
		}
	}
	if w != nil {
		w.WriteBlock(ids, vals)
	} else {
		s.Write(ids, vals)
	}
}

func (c *Ctx) faultOne(r *vb.Run, h *faultHist, mix string) {
	enc := c.anyEnc()
	items := map[int]batch{}
	size := 4
	if h.Simple && c.Chance(3) {
		size = 500 // a write flushes at 1000
	}
	item := func(i int) batch {
		if _, ok := items[i]; !ok {
			n := 1 + c.Intn(size)
			if size > 4 {
				n = 499 + c.Intn(3)
			} else if c.Chance(12) {
				n = 253 + c.Intn(200) // does not fit into one page
			}
			ids, vals := c.pairs(n, 99, 99)
			items[i] = batch{ids, vals}
		}
		return items[i]
	}
	if mix == "C15" {
		vb.Watch(r.Path(""), false, r)
	} else {
		vb.Watch(r.Path(""), mix == "C09", nil)
	}
	defer vb.Unwatch()
	var w *vb.Writer
	var s *vb.Simple
	var img []byte
	seen := map[string]bool{}
	// peek looks at every state of the file since the last time; the event e of the call goes after that.
	peek := func(kind string, o int) {
		if mix != "C09" {
			return
		}
		var found []vb.Ev
		ops := vb.TakeOps()
		hits := c.Stats["peek.states"]
		for _, op := range ops {
			if op.K != "t" && op.K != "w" || op.K == "t" && !op.Done || strings.HasSuffix(op.Name, "peek") {
				continue
			}
			img = apply(img, op, 0, inf, -1)
			hits++
			if len(img) < 24 || string(img[len(img)-8:]) != string(img[:8]) || seen[string(img)] {
				continue
			}
			seen[string(img)] = true
			ev, _ := r.Inspect("peek", append([]byte{}, img...))
			if ev["r"] != "err" {
				ev["op"], ev["kind"], ev["o"], ev["f"] = "peek", kind, o, "f"
				found = append(found, ev)
				c.Stats["peek.accepted"]++
			}
		}
		vb.TakeOps()
		c.Stats["peek.states"] = hits
		if len(found) > 0 {
			r.InsertBefore(1, found)
		}
	}
	if h.Simple {
		if s = r.NewSimple("f", enc, 4096); s == nil {
			return
		}
	} else if w = r.NewWriter("f", enc, 4096); w == nil {
		return
	}
	blocks := 0
	for n, call := range h.Calls {
		armed := c.arm(h, n, blocks)
		ok := ""
		switch call.Op {
		case "block":
			b := item(call.It)
			var k int
			if ok, k = w.WriteBlock(b.ids, b.vals); ok == "full" && k > 0 && k < len(b.ids) {
				items[call.It] = batch{b.ids[k:], b.vals[k:]} // to be written in the next call for this item
			}
			if ok != "err" {
				blocks++
			}
		case "fin":
			ok = w.Finalize(false)
		case "finclose":
			ok = w.Finalize(true)
		case "close":
			w.Close()
		case "swrite":
			b := item(call.It)
			ok = s.Write(b.ids, b.vals)
		case "sclose":
			ok = s.Close()
		}
		if armed && vb.NoFault() != "" {
			c.Stats["fault."+call.F[0].K+"."+call.F[0].M]++
		}
		if mix == "C13" && c.Chance(2) {
			c.refused(w, s)
		}
		if mix == "C22" && c.Chance(2) {
			r.Held()
		}
		if w != nil {
			peek("w", w.ID)
		} else {
			peek("s", s.ID)
		}
		if ok == "ok" && call.Op != "block" && call.Op != "swrite" && mix != "C09" {
			c.Stats["finalized"]++
			c.inspect(r, s, mix)
		}
	}
	if mix == "C22" && w != nil && c.Chance(2) {
		w.Close()
		r.Held()
		return
	}
	// Without failures from now on.
	if mix == "C09" || c.Chance(4) {
		return
	}
	vb.NoFault()
	if w != nil && w.Open() && w.Finalize(true) == "ok" || s != nil && s.Close() == "ok" {
		c.Stats["finalized"]++
		c.inspect(r, s, mix)
	}
}
