//go:build osrec

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/vb"
)

func init() {
	profiles["C10"] = faults
	profiles["C15"] = durable
	profiles["C09rec"] = recordLogs
	profiles["C09"] = crashes
	profiles["C15crash"] = crashes
	profiles["C06gate"] = gated
}

/* ------------------------------- C10 ----------------------------------- */

// policy is what a caller does when a call fails.
type policy int

const (
	retry  policy = iota // repeat the call
	skip                 // go on without it
	finish               // finalize at once
	rest                 // go on with what follows, then repeat the failed call
	npolicies
)

var polName = []string{"retry", "skip", "finish", "rest"}

type batch struct {
	ids  []uint64
	vals []int64
}

func (c *Ctx) batches(n, max int) (bs []batch) {
	for i := 0; i < n; i++ {
		ids, vals := c.pairs(1+c.Intn(max), 99, 99)
		bs = append(bs, batch{ids, vals})
	}
	return
}

// writerScript writes the batches through a Writer following the policy.
func writerScript(r *vb.Run, enc, target uint32, bs []batch, p policy, twice bool) bool {
	w := r.NewWriter("f", enc, target)
	if w == nil {
		return false
	}
	var again []batch
	one := func(b batch) (stop bool) {
		for tries := 0; tries < 3; tries++ {
			o, n := w.WriteBlock(b.ids, b.vals)
			switch {
			case o == "ok":
				return false
			case o == "full" && n > 0 && n < len(b.ids):
				b.ids, b.vals = b.ids[n:], b.vals[n:]
				tries = 0
				continue
			}
			switch p {
			case skip:
				return false
			case finish:
				return true
			case rest:
				again = append(again, b)
				return false
			}
		}
		return false
	}
	for i, b := range bs {
		if one(b) {
			break
		}
		if twice && i == 0 {
			if w.Finalize(false) != "ok" && p == retry {
				w.Finalize(false)
			}
		}
	}
	l := again
	again = nil
	for _, b := range l {
		one(b)
	}
	if p == skip { // finalize without closing, then close
		if w.Finalize(false) == "ok" {
			w.Close()
			return true
		}
	}
	for tries := 0; tries < 3; tries++ {
		if w.Finalize(true) == "ok" {
			return true
		}
	}
	w.Close()
	return false
}

func simpleScript(r *vb.Run, enc, target uint32, bs []batch, p policy) (*vb.Simple, bool) {
	s := r.NewSimple("f", enc, target)
	if s == nil {
		return nil, false
	}
	for _, b := range bs {
		if s.Write(b.ids, b.vals) != "ok" && p == finish {
			break
		}
	}
	for tries := 0; tries < 4; tries++ {
		if s.Close() == "ok" {
			return s, true
		}
	}
	return s, false
}

func verify(r *vb.Run, s *vb.Simple) {
	rd := r.Open("f")
	if rd == nil {
		return
	}
	rd.Dump(s)
	rd.Bitmap()
	rd.Aggregate(vb.AggOpts{})
	rd.Aggregate(vb.AggOpts{Skip: true})
	rd.Close()
}

var faultModes = []string{"err", "part", "short", "late"}

func faults(c *Ctx) {
	labels := []string{"fault", "open", "dump", "sdump", "stotal", "bitmap", "aggm", "aggs"}
	// The fault points of a script: all operations that are not writes of single items, some of those.
	points := func(name string, script func(r *vb.Run)) []int {
		r := vb.NewRun(c.Dir, name)
		vb.Watch(r.Path(""), false, nil)
		vb.Fault(1<<30, 0, "err")
		script(r)
		n := vb.OpCount()
		log := vb.Unwatch()
		r.Cleanup()
		_ = log
		var ks []int
		limit := c.N(64, 400)
		for k := 1; k <= n; k++ {
			// Beginning, end, and an even share of the middle.
			if n <= limit || k <= 24 || k > n-limit/2 || c.Intn(n) < limit/2 {
				ks = append(ks, k)
			}
		}
		return ks
	}
	run := func(name string, script func(r *vb.Run, p policy)) {
		pols := []policy{retry, skip, finish, rest}
		g := c.Gen
		ks := points(name, func(r *vb.Run) { script(r, retry) })
		for _, k := range ks {
			for mi, mode := range faultModes {
				for pi, p := range pols {
					// Quick: each point with each mode, the policies in turn; two of them in thorough.
					if !c.Thorough && (k+mi+int(c.Seed))%len(pols) != pi {
						continue
					}
					n := 1
					if (k*7+mi+pi)%5 == 0 {
						n = 2 + (k+mi)%9 // several operations in a row fail
					}
					c.Run(fmt.Sprintf("%s/%d-%s-%s-%d", name, k, mode, polName[p], n), labels, func(r *vb.Run) {
						vb.Watch(r.Path(""), false, nil)
						vb.Fault(k, n, mode)
						script(r, p)
						kind := vb.NoFault()
						vb.Unwatch()
						if kind != "" {
							c.Stats["fault."+kind+"."+mode]++
						}
					})
				}
			}
		}
		c.Gen = g
	}
	for i := 0; i < c.N(3, 8); i++ {
		enc := uint32((i*3 + int(c.Seed)) % 8)
		bs := c.batches(2+i%2, 4)
		run(fmt.Sprintf("writer%d-enc%d", i, enc), func(r *vb.Run, p policy) {
			if writerScript(r, enc, 4096, bs, p, i%2 == 1) {
				vb.NoFault()
				verify(r, nil)
			}
		})
	}
	{ // a block that is split
		ids, vals := c.pairs(265, 0, 0)
		bs := []batch{{ids, vals}, {ids[:3], vals[:3]}}
		run("split", func(r *vb.Run, p policy) {
			if writerScript(r, 0, 4096, bs, p, false) {
				vb.NoFault()
				verify(r, nil)
			}
		})
	}
	for i := 0; i < c.N(2, 4); i++ {
		enc := uint32((i*5 + int(c.Seed)) % 8)
		bs := c.batches(3, 5)
		run(fmt.Sprintf("simple%d-enc%d", i, enc), func(r *vb.Run, p policy) {
			if s, ok := simpleScript(r, enc, 4096, bs, p); ok {
				vb.NoFault()
				verify(r, s)
			}
		})
	}
	{ // a flush in the middle, and one at close
		b1, v1 := c.pairs(990, 0, 0)
		b2, v2 := c.pairs(30, 0, 1)
		bs := []batch{{b1, v1}, {b2, v2}, {b2[:5], v2[:5]}}
		run("simpleflush", func(r *vb.Run, p policy) {
			if s, ok := simpleScript(r, 7, 2048, bs, p); ok {
				vb.NoFault()
				verify(r, s)
			}
		})
	}
}

/* ------------------------------- C15 ----------------------------------- */

func durable(c *Ctx) {
	labels := []string{"durable"}
	for i := 0; i < c.N(60, 400); i++ {
		c.Run("writer", labels, func(r *vb.Run) {
			vb.Watch(r.Path(""), false, r)
			defer vb.Unwatch()
			w := r.NewWriter("f", c.anyEnc(), c.Target())
			if w == nil {
				return
			}
			for n := c.Intn(5); n > 0; n-- {
				ids, vals := c.pairs(1+c.Intn(400), 99, 99)
				w.WriteAll(ids, vals)
				if c.Chance(4) {
					w.Finalize(false)
				}
				if c.Chance(5) {
					w.WriteBlock(ids, vals[:0])
				}
			}
			if c.Chance(2) {
				w.Finalize(true)
			} else {
				w.Finalize(false)
				w.Close()
			}
		})
		c.Run("simple", labels, func(r *vb.Run) {
			vb.Watch(r.Path(""), false, r)
			defer vb.Unwatch()
			s := r.NewSimple("f", c.anyEnc(), c.Target())
			if s == nil {
				return
			}
			for n := c.Intn(4); n > 0; n-- {
				ids, vals := c.pairs(1+c.Intn(900), 99, 99)
				s.Write(ids, vals)
			}
			s.Close()
		})
	}
	// After a failed call a successful one must make everything durable.
	for i := 0; i < c.N(40, 300); i++ {
		c.Run("afterfault", labels, func(r *vb.Run) {
			vb.Watch(r.Path(""), false, r)
			defer vb.Unwatch()
			bs := c.batches(2, 4)
			vb.Fault(1+c.Intn(120), 1+c.Intn(2), faultModes[c.Intn(3)])
			writerScript(r, c.anyEnc(), 4096, bs, policy(c.Intn(int(npolicies))), c.Chance(3))
			vb.NoFault()
		})
	}
	// Files that are large in one way or another.
	c.Run("blocks", labels, func(r *vb.Run) {
		vb.Watch(r.Path(""), false, r)
		defer vb.Unwatch()
		w := r.NewWriter("f", 7, 0)
		ids, vals := c.pairs(c.N(100, 300), 0, 0)
		w.WriteAll(ids, vals)
		w.Finalize(true)
	})
	c.Run("bitmap", labels, func(r *vb.Run) {
		vb.Watch(r.Path(""), false, r)
		defer vb.Unwatch()
		w := r.NewWriter("f", 4, 1<<20)
		ids, vals := c.IDs(400, vb.IDContainers), c.Vals(400, 0)
		w.WriteAll(ids, vals)
		w.Finalize(true)
	})
}

/* ------------------------------- C09 ----------------------------------- */

// A recorded write of a file, with the operations it consists of.
type opLog struct {
	Name   string   `json:"name"`
	Start  int      `json:"start"`
	Middle bool     `json:"middle"`
	Kills  bool     `json:"kills"`
	Sample int      `json:"sample"` // number of states to look at, 0: all
	Ops    []vb.Op  `json:"ops"`
	Ev     []vb.Ev  `json:"ev"`
	File   string   `json:"file"`
	Alt    string   `json:"alt"`
	Done   int      `json:"done"` // operations after which success was reported
	Names  []string `json:"-"`
}

// recordLogs records the file operations of writing files.
func recordLogs(c *Ctx) {
	var logs []*opLog
	sample := 0
	rec := func(name string, base []byte, script func(r *vb.Run)) *opLog {
		r := vb.NewRun(c.Dir, name)
		r.Compress = sample > 0
		l := &opLog{Sample: sample, Name: name, File: "f", Middle: true, Kills: true}
		if base != nil { // a file that is replaced
			if err := os.WriteFile(r.Path("f"), base, 0o644); err != nil {
				panic(err)
			}
			l.Ops = append(l.Ops, vb.Op{K: "w", Off: 0, Len: len(base), Data: base}, vb.Op{K: "s"})
		}
		l.Start = len(l.Ops)
		vb.Watch(r.Path("f"), true, nil)
		script(r)
		for _, o := range vb.Unwatch() {
			if o.K != "o" && o.K != "c" && !(o.K == "w" && o.Len == 0) && !(o.Err && o.K != "w") {
				l.Ops = append(l.Ops, o)
			}
		}
		if sample > 0 {
			l.Ops = join(l.Ops)
		}
		l.Done = len(l.Ops)
		l.Ev = r.Ev
		r.Cleanup()
		logs = append(logs, l)
		return l
	}
	blocks := func(enc uint32, n, max int) func(r *vb.Run) {
		return func(r *vb.Run) {
			w := r.NewWriter("f", enc, 4096)
			for i := 0; i < n; i++ {
				ids, vals := c.pairs(1+c.Intn(max), 99, 99)
				w.WriteAll(ids, vals)
			}
			w.Finalize(true)
		}
	}
	for n := 0; n <= 3; n++ {
		c.Gen = vb.NewGen(c.Seed*100 + int64(n))
		rec(fmt.Sprintf("blocks%d", n), nil, blocks(c.anyEnc(), n, 4))
	}
	// Replacing a file that is larger, smaller, or of the same shape.
	old := func(n int) []byte {
		r := vb.NewRun(c.Dir, "old")
		defer r.Cleanup()
		blocks(c.anyEnc(), n, 4)(r)
		b, err := os.ReadFile(r.Path("f"))
		if err != nil {
			panic(err)
		}
		return b
	}
	for i := 0; i < c.N(2, 6); i++ {
		n := 1 + c.Intn(3)
		rec(fmt.Sprintf("replace%d-%d", i, n), old([]int{n, n + 2, 0}[i%3]), blocks(c.anyEnc(), n, 3))
	}
	// The simple writer.
	rec("simple", nil, func(r *vb.Run) {
		s := r.NewSimple("f", 7, 4096)
		for i := 0; i < 2; i++ {
			ids, vals := c.pairs(1+c.Intn(4), 99, 99)
			s.Write(ids, vals)
		}
		s.Close()
		if rd := r.Open("f"); rd != nil {
			rd.Dump(s)
		}
	})
	// An operation fails and the call is made again.
	for k := 0; k < c.N(6, 16); k++ {
		c.Gen = vb.NewGen(c.Seed*100 + 50 + int64(k))
		var base []byte
		if c.Chance(3) {
			base = old(1 + c.Intn(3))
		}
		rec(fmt.Sprintf("retry%d", k), base, func(r *vb.Run) {
			fail := func() {
				switch { // the syncs of a finalization first of all
				case k < 2 || c.Chance(2):
					vb.FaultKind("sync", 1+k%2, 1, "err")
				case c.Chance(4):
					vb.FaultKind("seek", 1+c.Intn(6), 1, "err")
				default:
					vb.FaultKind("write", 1+c.Intn(30), 1, []string{"err", "part", "short"}[c.Intn(3)])
				}
			}
			if k%4 == 3 {
				s := r.NewSimple("f", c.anyEnc(), 4096)
				ids, vals := c.pairs(1+c.Intn(4), 99, 99)
				s.Write(ids, vals)
				fail()
				ok := s.Close()
				vb.NoFault()
				if ok == "ok" || s.Close() == "ok" {
					if rd := r.Open("f"); rd != nil {
						rd.Dump(s) // which blocks there are
					}
				}
				return
			}
			w := r.NewWriter("f", c.anyEnc(), 4096)
			for b := k % 3; b >= 0; b-- {
				ids, vals := c.pairs(1+c.Intn(4), 99, 99)
				if k > 3 && c.Chance(3) {
					fail()
				}
				if ok, _ := w.WriteBlock(ids, vals); ok == "err" {
					vb.NoFault()
					w.WriteBlock(ids, vals)
				}
				vb.NoFault()
			}
			fail()
			for n := 0; n < 3 && w.Finalize(false) != "ok"; n++ {
				vb.NoFault()
			}
			vb.NoFault()
			w.Finalize(true)
		})
	}
	// An index of several pages.
	l := rec("index", nil, func(r *vb.Run) {
		w := r.NewWriter("f", 7, 0)
		for i := 0; i < 76+c.Intn(3); i++ {
			ids, vals := c.pairs(1, 99, 99)
			w.WriteAll(ids, vals)
		}
		w.Finalize(true)
	})
	l.Middle, l.Kills = false, false
	// An id bitmap of several pages.
	l = rec("bitmap", nil, func(r *vb.Run) {
		w := r.NewWriter("f", 4, 4096)
		ids, vals := c.IDs(12, vb.IDContainers), c.Vals(12, 0)
		w.WriteAll(ids, vals)
		w.Finalize(true)
	})
	if c.Thorough {
		for i := 0; i < 12; i++ {
			rec(fmt.Sprintf("more%d", i), nil, blocks(c.anyEnc(), c.Intn(5), 6))
		}
	}
	// Files of many pages.
	sample = c.N(50, 400)
	for enc := uint32(0); enc < 8; enc++ {
		if !c.Thorough && (uint32(c.Seed)+enc)%2 == 0 && enc != 4 {
			continue
		}
		c.Gen = vb.NewGen(c.Seed*1000 + int64(enc))
		old := []byte(nil)
		if c.Chance(3) {
			old = make([]byte, 1+c.Intn(1<<20))
			copy(old, "VIBE_COL")
		}
		rec(fmt.Sprintf("large-%d", enc), old, func(r *vb.Run) {
			w := r.NewWriter("f", enc, math.MaxUint32)
			for b := 1 + c.Intn(4); b > 0; b-- {
				w.WriteBlock(c.bigPairs([]int{1 + c.Intn(20), 1000 + c.Intn(9000), 20000}[c.Intn(3)], c.Intn(nBig)))
			}
			w.Finalize(true)
		})
	}
	rec("large-index", nil, func(r *vb.Run) {
		w := r.NewWriter("f", 7, 0)
		for b := 200 + c.Intn(500); b > 0; b-- {
			w.WriteBlock(c.bigPairs(1+c.Intn(3), bigSet))
		}
		w.Finalize(true)
	})
	rec("large-bitmap", nil, func(r *vb.Run) {
		w := r.NewWriter("f", 4, math.MaxUint32)
		for b := 0; b < 2; b++ {
			ids := make([]uint64, 300+c.Intn(600))
			for i := range ids {
				ids[i] = uint64(b*1000+i) << 16
			}
			w.WriteBlock(ids, c.bigVals(len(ids)))
		}
		w.Finalize(true)
	})
	write(filepath.Join(c.outDir, "logs.json"), logs)
	slim := []any{}
	for _, l := range logs {
		ops := []any{}
		for _, o := range l.Ops {
			ops = append(ops, map[string]any{"k": o.K, "off": o.Off, "len": o.Len})
		}
		slim = append(slim, map[string]any{"name": l.Name, "start": l.Start, "middle": l.Middle, "kills": l.Kills, "sample": l.Sample, "ops": ops})
	}
	write(filepath.Join(c.outDir, "oplogs.json"), slim)
}

// join makes writes that follow each other within a page one: what is on the disk after a part of it is
// among what a kill within it leaves.
func join(ops []vb.Op) (out []vb.Op) {
	for _, o := range ops {
		if n := len(out); n > 0 && o.K == "w" && out[n-1].K == "w" {
			p := &out[n-1]
			if end := p.Off + int64(p.Len); end == o.Off && end%4096 != 0 && p.Off/4096 == (o.Off+int64(o.Len)-1)/4096 {
				p.Data = append(p.Data[:p.Len:p.Len], o.Data...)
				p.Len += o.Len
				continue
			}
		}
		out = append(out, o)
	}
	return
}

type crashState struct {
	K    string   `json:"k"`
	I    int      `json:"i"`
	B    int      `json:"b"`
	Keep [][2]int `json:"keep"`
	Size int      `json:"size"`
}

func sizeAfter(ops []vb.Op, i int) int64 {
	var n int64
	for _, o := range ops[:i] {
		switch o.K {
		case "w":
			if e := o.Off + int64(o.Len); e > n {
				n = e
			}
		case "t":
			n = o.Off
		}
	}
	return n
}

// apply carries out a write on an image, only within [lo, hi) and at most limit bytes (-1: all).
func apply(img []byte, o vb.Op, lo, hi int64, limit int) []byte {
	switch o.K {
	case "t":
		for int64(len(img)) < o.Off {
			img = append(img, 0)
		}
		img = img[:o.Off]
	case "w":
		d := o.Data
		if limit >= 0 && limit < len(d) {
			d = d[:limit]
		}
		a, b := o.Off, o.Off+int64(len(d))
		if a < lo {
			a = lo
		}
		if b > hi {
			b = hi
		}
		if a >= b {
			return img
		}
		for int64(len(img)) < b {
			img = append(img, 0)
		}
		copy(img[a:b], d[a-o.Off:b-o.Off])
	}
	return img
}

const inf = int64(1) << 60

// image makes the file that a crash leaves behind.
type imager struct {
	ops   []vb.Op
	cache map[int][]byte // complete images after so many operations
}

func (m *imager) after(i int) []byte {
	if b, ok := m.cache[i]; ok {
		return b
	}
	j := i
	var img []byte
	for ; j > 0; j-- {
		if b, ok := m.cache[j]; ok {
			img = append([]byte{}, b...)
			break
		}
	}
	for ; j < i; j++ {
		img = apply(img, m.ops[j], 0, inf, -1)
	}
	m.cache[i] = img
	return img
}

func (m *imager) image(s crashState) []byte {
	if s.K == "kill" {
		img := append([]byte{}, m.after(s.I)...)
		if s.B > 0 {
			img = apply(img, m.ops[s.I], 0, inf, s.B)
		}
		return img
	}
	size := sizeAfter(m.ops, s.Size)
	ls := 0
	for j := 0; j < s.I; j++ {
		if m.ops[j].K == "s" {
			ls = j + 1
		}
	}
	// Pages as of the last sync; what a later truncation cut off is gone.
	img := append([]byte{}, m.after(ls)...)
	for j := ls; j < s.I; j++ {
		if m.ops[j].K == "t" {
			img = apply(img, m.ops[j], 0, inf, -1)
		}
	}
	for _, kp := range s.Keep {
		lo, hi := int64(kp[0])*4096, int64(kp[0]+1)*4096
		for j := ls; j < kp[1]; j++ {
			if m.ops[j].K == "w" {
				img = apply(img, m.ops[j], lo, hi, -1)
			}
		}
	}
	return apply(img, vb.Op{K: "t", Off: size}, 0, inf, -1)
}

// crashes opens the images of the crash states that the specification chose.
func crashes(c *Ctx) {
	var in struct {
		Logs   string   `json:"logs"`
		Chosen []string `json:"chosen"`
		Must   bool     `json:"must"` // only states after success was reported
	}
	load(c.In, &in)
	var logs []*opLog
	load(in.Logs, &logs)
	labels := []string{"crash"}
	if in.Must {
		labels = []string{"durable"}
	}
	for n, l := range logs {
		var states []crashState
		load(in.Chosen[n], &states)
		m := &imager{ops: l.Ops, cache: map[int][]byte{}}
		sort.SliceStable(states, func(i, j int) bool { return states[i].I < states[j].I })
		c.Run(l.Name, labels, func(r *vb.Run) {
			r.Compress = l.Sample > 0
			for _, e := range l.Ev {
				r.Add(e)
			}
			seen := map[string]bool{}
			type res struct {
				ev vb.Ev
				n  int
			}
			outcomes := map[string]*res{}
			for _, s := range states {
				must := s.I >= l.Done
				if in.Must && !must {
					continue
				}
				img := m.image(s)
				key := fmt.Sprint(must, ":") + string(img)
				c.Stats["crash.states"]++
				if seen[key] {
					continue
				}
				seen[key] = true
				c.Stats["crash.images"]++
				ev, dig := r.Inspect("img", img)
				ev["f"], ev["alt"], ev["must"] = l.File, l.Alt, must
				dig += fmt.Sprint(must)
				if o := outcomes[dig]; o != nil {
					o.n++
					continue
				}
				what, _ := json.Marshal(s)
				ev["at"] = string(what)
				outcomes[dig] = &res{ev, 1}
				c.Stats["crash."+ev["r"].(string)]++
			}
			keys := []string{}
			for k := range outcomes {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				outcomes[k].ev["n"] = outcomes[k].n
				r.Add(outcomes[k].ev)
			}
		})
		c.Stats["logs"]++
		if strings.HasPrefix(l.Name, "blocks") {
			c.Stats["log.ops"] += len(l.Ops)
		}
	}
}

/* ------------------------------- C06 ----------------------------------- */

// gated runs parallel aggregations while the reads of the workers complete in a chosen order.
func gated(c *Ctx) {
	labels := []string{"aggp", "par"}
	for blocks := 2; blocks <= c.N(4, 5); blocks++ {
		for k := 0; k < c.N(2, 4); k++ {
			perms := permutations(blocks)
			c.Run(fmt.Sprintf("orders-%d", blocks), labels, func(r *vb.Run) {
				ids := c.smallFile(r, "f", c.anyEnc(), blocks, 4)
				rd := r.Open("f")
				if rd == nil {
					return
				}
				offs := r.BlockOffsets("f")
				if len(offs) < blocks {
					return
				}
				allow, deny := vb.NoFilter, vb.NoFilter
				switch k % 3 {
				case 1:
					allow = c.FilterNear(ids)
				case 2:
					deny = c.FilterNear(ids)
				}
				for _, p := range perms {
					vb.Watch(r.Path(""), false, nil)
					g := vb.NewGate(offs, p)
					rd.AggregateGated(vb.AggOpts{Skip: true, Par: blocks, Allow: allow, Deny: deny}, func() {
						if g.Open() {
							c.Stats["order.kept"]++
						} else {
							c.Stats["order.bent"]++
						}
					})
					vb.Unwatch()
				}
				rd.Close()
			})
		}
	}
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			out = append(out, append(q, p[i:]...))
		}
	}
	return out
}
