package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/weaviate/sroar"

	"verif/harness/vb"
)

func init() {
	profiles["C11"] = layout
	profiles["C11data"] = layoutData
	profiles["C11read"] = layoutRead
	profiles["C18"] = damaged
}

/* ------------------------------- C11 ----------------------------------- */

// layout: files that the library writes, byte by byte.
func layout(c *Ctx) {
	labels := []string{"layout", "write", "open"}
	look := func(r *vb.Run, s *vb.Simple) {
		rd := r.Open("f")
		if rd == nil {
			return
		}
		if s != nil {
			rd.Dump(s)
		}
		rd.Close()
		r.Image("f")
	}
	for enc := uint32(0); enc < 8; enc++ {
		enc := enc
		for n := 0; n < 4; n++ {
			n := n
			c.Run(fmt.Sprintf("small-%d-%d", enc, n), labels, func(r *vb.Run) {
				c.smallFile(r, "f", enc, n, 12)
				look(r, nil)
			})
		}
		for k := 0; k < c.N(3, 12); k++ {
			c.Run(fmt.Sprintf("block-%d", enc), labels, func(r *vb.Run) {
				w := r.NewWriter("f", enc, c.Target())
				ids, vals := c.pairs(c.BlockN(), 99, 99)
				for i := 0; i < 3 && len(ids) > 0; i++ {
					_, n := w.WriteBlock(ids, vals)
					if n <= 0 {
						break
					}
					ids, vals = ids[n:], vals[n:]
				}
				w.Finalize(true)
				look(r, nil)
			})
		}
		// Blocks that end exactly at, just before and just after a page boundary.
		for d := -1; d <= 1; d++ {
			d := d
			c.Run(fmt.Sprintf("fit-%d", enc), labels, func(r *vb.Run) {
				w := r.NewWriter("f", enc, 1<<20)
				ids, vals := c.fit(enc, 4096-64+d)
				w.WriteAll(ids, vals)
				ids, vals = c.fit(enc, 4096+d)
				w.WriteAll(ids, vals)
				w.Finalize(true)
				look(r, nil)
			})
		}
		// Finalized twice, and replaced.
		c.Run(fmt.Sprintf("again-%d", enc), labels, func(r *vb.Run) {
			w := r.NewWriter("f", enc, 4096)
			for k := 0; k < 2; k++ {
				ids, vals := c.pairs(1+c.Intn(20), 99, 99)
				w.WriteAll(ids, vals)
				w.Finalize(false)
				look(r, nil)
			}
			if c.Chance(2) {
				w.Finalize(false)
			}
			w.Finalize(true)
			look(r, nil)
			w = r.NewWriter("f", c.anyEnc(), 4096)
			ids, vals := c.pairs(1+c.Intn(3), 99, 99)
			w.WriteAll(ids, vals)
			w.Finalize(true)
			look(r, nil)
		})
		c.Run(fmt.Sprintf("simple-%d", enc), labels, func(r *vb.Run) {
			s := r.NewSimple("f", enc, []uint32{4096, 8192}[c.Intn(2)])
			for k := 0; k < 2; k++ {
				ids, vals := c.pairs(1+c.Intn(200), c.Intn(12), c.Intn(9))
				s.Write(ids, vals)
			}
			s.Close()
			look(r, s)
		})
	}
	// Bitmaps that end around a page boundary, and many index entries.
	for k := 0; k < c.N(4, 20); k++ {
		c.Run("bitmap", labels, func(r *vb.Run) {
			w := r.NewWriter("f", 7, 1<<20)
			n := 1 + c.Intn(120)
			ids := make([]uint64, n)
			for i := range ids {
				ids[i] = uint64(i) << 16
			}
			w.WriteAll(ids, c.Vals(n, vb.VSmall))
			w.Finalize(true)
			look(r, nil)
		})
	}
}

type madeBlock struct {
	IDs  []vb.W `json:"ids"`
	Vals []vb.W `json:"vals"`
	Swap bool   `json:"swap"`
	Gap  int    `json:"gap"`
	Tail int    `json:"tail"`
	Skip int    `json:"skip"`
}
type madeFile struct {
	Enc    int         `json:"enc"`
	Target int         `json:"target"`
	BM     []int       `json:"bm"`
	BmAt   string      `json:"bmAt"`
	FPad   int         `json:"fPad"`
	Blocks []madeBlock `json:"blocks"`
}

// layoutData draws what the specification then makes into files.
func layoutData(c *Ctx) {
	files := []madeFile{}
	for k := 0; k < c.N(96, 480); k++ {
		c.Gen = vb.NewGen(c.Seed*7919 + int64(k))
		f := madeFile{Enc: k % 8, Target: c.Intn(100000), BmAt: []string{"none", "first", "last"}[c.Intn(3)], FPad: c.Intn(3) * c.Intn(200),
			BM: []int{}, Blocks: []madeBlock{}}
		plain := c.Chance(4)
		bm := sroar.NewBitmap()
		for b := c.Intn(5); b > 0; b-- {
			ids, vals := c.pairs(1+c.Intn(25), c.Intn(12), c.Intn(9))
			for _, id := range ids {
				bm.Set(id)
			}
			mb := madeBlock{IDs: vb.WUs(ids), Vals: vb.WIs(vals)}
			if !plain {
				mb.Swap, mb.Gap, mb.Tail, mb.Skip = c.Chance(2), c.Intn(2)*c.Intn(20), c.Intn(2)*c.Intn(40), c.Intn(2)*c.Intn(300)
			}
			f.Blocks = append(f.Blocks, mb)
		}
		for _, x := range bm.ToBuffer() {
			f.BM = append(f.BM, int(x))
		}
		files = append(files, f)
	}
	write(filepath.Join(c.outDir, "files.json"), files)
}

// layoutRead: files that the specification made, read by the library.
func layoutRead(c *Ctx) {
	var in struct {
		Files string   `json:"files"`
		Bytes []string `json:"bytes"`
	}
	load(c.In, &in)
	var files []madeFile
	load(in.Files, &files)
	one := func(k int, f madeFile, far int) {
		name := "made"
		if far >= 0 {
			name = "far"
		}
		labels := []string{"open", "desc", "dump", "pairs", "aggm", "aggs", "aggf", "aggp", "iter", "range"}
		if f.BmAt != "none" {
			labels = append(labels, "bitmap", "multi")
		}
		c.Run(fmt.Sprintf("%s-%d", name, k), labels, func(r *vb.Run) {
			var n []int
			load(in.Bytes[k], &n)
			b := make([]byte, len(n))
			for i := range n {
				b[i] = byte(n[i])
			}
			if far >= 0 {
				if !writeFar(r.Path("f"), b, far) {
					c.Stats["far.skipped"]++
					return
				}
			} else if err := os.WriteFile(r.Path("f"), b, 0o644); err != nil {
				panic(err)
			}
			blocks := []vb.Ev{}
			ids := []uint64{}
			for _, x := range f.Blocks {
				blocks = append(blocks, vb.Ev{"ids": x.IDs, "vals": x.Vals})
				for _, w := range x.IDs {
					ids = append(ids, w.U())
				}
			}
			r.Add(vb.Ev{"op": "given", "f": "f", "enc": f.Enc, "target": f.Target, "blocks": blocks})
			rd := r.Open("f")
			if rd == nil {
				return
			}
			rd.Describe()
			rd.Dump(nil)
			rd.Aggregate(vb.AggOpts{})
			rd.Aggregate(vb.AggOpts{Skip: true})
			rd.Aggregate(vb.AggOpts{Skip: true, Par: 1 + c.Intn(4)})
			for q := 0; q < 3; q++ {
				o := vb.AggOpts{Skip: c.Chance(2), Allow: c.FilterNear(ids), Deny: c.FilterNear(ids)}
				rd.Aggregate(o)
				rd.Iterator(o.Allow, o.Deny)
			}
			rd.Bitmap()
			if f.BmAt != "none" {
				m := r.NewMulti(rd, rd)
				m.Aggregate(c.Chance(2), vb.NoFilter)
			}
			rd.Pairs(uint64(c.Intn(len(blocks)+2)), false)
			rd.Close()
		})
	}
	for k, f := range files {
		one(k, f, -1)
	}
	for k := 0; k < min(len(files), c.N(40, 200)); k++ {
		one(k, files[k], k)
	}
}

// writeFar writes a file made by the specification with some gigabytes more filler (zeros, as a hole) before
// one of its blocks or the footer, that is, with a larger skip or fPad (see Layout!MakeFile).
func writeFar(path string, b []byte, k int) bool {
	le := binary.LittleEndian
	foot := len(b) - 24 - int(le.Uint64(b[len(b)-24:]))
	n := int(le.Uint32(b[foot:]))
	cuts := []uint64{uint64(foot)}
	for i := 0; i < n; i++ {
		cuts = append(cuts, le.Uint64(b[foot+4+56*i:]))
	}
	cut := cuts[k%len(cuts)]
	gap := []uint64{1<<32 - cut, 1 << 31, 1 << 32, 1<<32 + 4096, 1<<31 - cut, 3 << 31}[k/2%6]
	b = append([]byte{}, b...)
	move := func(at int) {
		if o := le.Uint64(b[at:]); o >= cut {
			le.PutUint64(b[at:], o+gap)
		}
	}
	move(44)
	for i := 0; i < n; i++ {
		move(foot + 4 + 56*i)
	}
	f, err := os.Create(path)
	if err != nil {
		return false
	}
	defer f.Close()
	if _, err := f.Write(b[:cut]); err != nil {
		return false
	}
	_, err = f.WriteAt(b[cut:], int64(cut+gap))
	return err == nil
}

/* ------------------------------- C18 ----------------------------------- */

// images opens variations of a file and groups those that look alike to a reader.
type images struct {
	c     *Ctx
	r     *vb.Run
	seen  map[string]*vb.Ev
	order []*vb.Ev
	n     int
}

func (c *Ctx) newImages(r *vb.Run) *images {
	return &images{c: c, r: r, seen: map[string]*vb.Ev{}}
}

func ints(b []byte) []int {
	n := make([]int, len(b))
	for i := range b {
		n[i] = int(b[i])
	}
	return n
}

// look notes the outcome of opening img, the bytes of the file at path.
func (m *images) look(path string, img []byte) {
	m.n++
	head, tail, count := make([]byte, 12), make([]byte, 24), make([]byte, 4)
	copy(head, img)
	size := len(img)
	if size >= 24 {
		copy(tail, img[size-24:])
		fs := binary.LittleEndian.Uint64(tail)
		if fs <= uint64(size) && size-24-int(fs) >= 0 {
			copy(count, img[size-24-int(fs):])
		}
	}
	o := m.r.TryOpen(path)
	key := fmt.Sprint(head, tail, count, o)
	if e := m.seen[key]; e != nil {
		(*e)["lo"], (*e)["hi"] = min((*e)["lo"].(int), size), max((*e)["hi"].(int), size)
		(*e)["n"] = (*e)["n"].(int) + 1
		return
	}
	e := vb.Ev{"op": "openimg", "lo": size, "hi": size, "head": ints(head), "count": ints(count), "tail": ints(tail), "r": o, "n": 1}
	m.seen[key] = &e
	m.order = append(m.order, &e)
}

func (m *images) done() {
	for _, e := range m.order {
		m.r.Add(*e)
	}
	m.c.Stats["images"] += m.n
}

func (m *images) put(img []byte) {
	p := m.r.Path("img")
	if err := os.WriteFile(p, img, 0o644); err != nil {
		panic(err)
	}
	m.look(p, img)
}

func damaged(c *Ctx) {
	labels := []string{"accept", "write", "open", "refuse"}
	file := func(r *vb.Run) []byte {
		switch c.Intn(6) {
		case 0:
			r.NewWriter("f", c.anyEnc(), c.Target()).Finalize(true)
		case 1, 2, 3:
			c.smallFile(r, "f", c.anyEnc(), 1+c.Intn(4), 9)
		case 4:
			s := r.NewSimple("f", c.anyEnc(), 4096)
			for k := 0; k < 2; k++ {
				ids, vals := c.pairs(1+c.Intn(300), 99, 99)
				s.Write(ids, vals)
			}
			s.Close()
		case 5: // footers of more than a page
			c.smallFile(r, "f", 7, 70+c.Intn(20), 1)
		}
		b, err := os.ReadFile(r.Path("f"))
		if err != nil {
			panic(err)
		}
		return b
	}
	// Cut off at every byte.
	for k := 0; k < c.N(9, 60); k++ {
		c.Run("cut", labels, func(r *vb.Run) {
			b := file(r)
			r.Open("f")
			m := c.newImages(r)
			p := r.Path("cut")
			if err := os.WriteFile(p, b, 0o644); err != nil {
				panic(err)
			}
			step := 1
			if len(b) > 60000 && !c.Thorough {
				step = 7
			}
			for n := len(b) - 1; n >= 0; n -= 1 {
				if step > 1 && n%step != 0 && n > 200 && n < len(b)-5000 && n%4096 > 2 {
					continue
				}
				if err := os.Truncate(p, int64(n)); err != nil {
					panic(err)
				}
				m.look(p, b[:n])
			}
			m.done()
		})
	}
	// The ends changed.
	for k := 0; k < c.N(12, 80); k++ {
		c.Run("ends", labels, func(r *vb.Run) {
			b := file(r)
			m := c.newImages(r)
			n := len(b)
			change := func(at int, f func(p []byte)) {
				x := append([]byte{}, b...)
				f(x[at:])
				m.put(x)
			}
			for i := 0; i < 12; i++ { // magic and version
				for bit := 0; bit < 8; bit++ {
					i, bit := i, bit
					change(i, func(p []byte) { p[0] ^= 1 << bit })
					if i < 8 {
						change(n-8+i, func(p []byte) { p[0] ^= 1 << bit })
					}
				}
			}
			for _, v := range []uint32{0, 2, 3, 255, 256, 257, 1 << 16, 1<<16 + 1, 1 << 24, 1<<24 + 1, 1 << 31, 1<<31 + 1, math.MaxUint32} {
				v := v
				change(8, func(p []byte) { binary.LittleEndian.PutUint32(p, v) })
			}
			fs := binary.LittleEndian.Uint64(b[n-24:])
			sizes := []uint64{0, 1, 2, 3, 4, 5, 8, 24, 28, 52, 56, 57, 60, 61, 64, 112, 116, 172, uint64(n), uint64(n) - 24, uint64(n) - 23, uint64(n) - 25,
				uint64(n) - 88, uint64(n) - 87, uint64(n) - 89, 1 << 31, 1 << 32, 1<<32 + fs, 1 << 62, 1 << 63, 1<<63 + fs, math.MaxUint64, -fs, math.MaxUint64 - 3, math.MaxUint64 - 27}
			for d := uint64(0); d < 70; d++ {
				sizes = append(sizes, fs+d, fs-d, fs+56*d, fs-56*d)
			}
			for i := 0; i < c.N(60, 300); i++ {
				sizes = append(sizes, uint64(c.Intn(n)))
			}
			for _, s := range sizes {
				s := s
				change(n-24, func(p []byte) { binary.LittleEndian.PutUint64(p, s) })
			}
			start := n - 24 - int(fs)
			for _, cnt := range []uint32{0, 1, 2, 3, 4, 255, 256, 1 << 16, 1 << 24, 1 << 28, 1 << 30, 1 << 31, math.MaxUint32} {
				cnt := cnt
				change(start, func(p []byte) { binary.LittleEndian.PutUint32(p, cnt) })
				// ... with a footer size that fits it
				change(start, func(p []byte) {
					binary.LittleEndian.PutUint32(p, cnt)
					binary.LittleEndian.PutUint64(p[fs:], 4+56*uint64(cnt))
				})
			}
			m.done()
		})
	}
	// Padded, as copying and archiving tools do, and converted, as transfers in text mode do.
	for k := 0; k < c.N(4, 24); k++ {
		c.Run("padded", labels, func(r *vb.Run) {
			b := file(r)
			m := c.newImages(r)
			p := r.Path("padded")
			for _, fill := range []byte{0, 0xff, '\n', ' ', 0x1a, b[len(b)-1], b[c.Intn(len(b))]} {
				sizes := []int{}
				for n := 1; n <= 600; n++ {
					sizes = append(sizes, len(b)+n)
				}
				for _, unit := range []int{16, 128, 512, 1000, 1024, 1 << 12, 10240, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 20} {
					up := (len(b)/unit + 1) * unit
					sizes = append(sizes, up-1, up, up+1, up+unit, len(b)+unit)
				}
				for n := 1024; n <= 1<<16; n *= 2 {
					sizes = append(sizes, len(b)+n-24, len(b)+n-1, len(b)+n, len(b)+n+1)
				}
				img := append(append([]byte{}, b...), bytes.Repeat([]byte{fill}, 2<<20)...)
				if err := os.WriteFile(p, img[:len(b)], 0o644); err != nil {
					panic(err)
				}
				at := len(b)
				sort.Ints(sizes)
				f, err := os.OpenFile(p, os.O_WRONLY, 0)
				if err != nil {
					panic(err)
				}
				for _, n := range sizes {
					if n > at {
						if _, err := f.WriteAt(img[at:n], int64(at)); err != nil {
							panic(err)
						}
						at = n
						m.look(p, img[:n])
					}
				}
				f.Close()
				if n := c.Intn(70); n > 0 { // in front as well
					m.put(append(bytes.Repeat([]byte{fill}, n), b...))
				}
			}
			m.put(bytes.ReplaceAll(b, []byte{'\n'}, []byte("\r\n")))
			m.put(bytes.ReplaceAll(b, []byte{0}, nil))
			m.put(bytes.ToUpper(b))
			m.put(bytes.TrimRight(b, "\x00"))
			for _, w := range []int{2, 4, 8} { // other byte order
				x := append([]byte{}, b...)
				for i := 0; i+w <= len(x); i += w {
					for j := 0; j < w/2; j++ {
						x[i+j], x[i+w-1-j] = x[i+w-1-j], x[i+j]
					}
				}
				m.put(x)
				y := append(append([]byte{}, x[:64]...), b[64:]...)
				m.put(y)
				m.put(append(append([]byte{}, b[:len(b)-24]...), x[len(x)-24:]...))
			}
			m.done()
		})
	}
	// Other data behind the file, in front of it, instead of it.
	for k := 0; k < c.N(10, 60); k++ {
		c.Run("other", labels, func(r *vb.Run) {
			b := file(r)
			m := c.newImages(r)
			junk := func(n int) []byte {
				x := make([]byte, n)
				switch c.Intn(4) {
				case 0:
					c.Read(x)
				case 1:
				case 2:
					for i := range x {
						x[i] = b[c.Intn(len(b))]
					}
				case 3:
					copy(x, b[c.Intn(len(b)):])
				}
				return x
			}
			for i := 0; i < c.N(60, 200); i++ {
				n := 1 + c.Intn(40)
				if c.Chance(6) {
					n = 4096 - 30 + c.Intn(60)
				}
				m.put(append(append([]byte{}, b...), junk(n)...))
				m.put(append(append([]byte{}, b...), b[len(b)-n:]...))
				m.put(append(append([]byte{}, b...), b[:n]...))
				m.put(append(junk(n), b...))
				m.put(append(append([]byte{}, b[:c.Intn(64)]...), b...))
				m.put(junk(n))
				m.put(junk(64 + c.Intn(200)))
				cut := c.Intn(len(b))
				m.put(append(append([]byte{}, b[:cut]...), b[min(cut+1+c.Intn(100), len(b)):]...)) // a hole
			}
			magic := b[:8]
			for n := 8; n < 120; n++ { // nothing but magic numbers at both ends
				x := make([]byte, n)
				copy(x, magic)
				copy(x[n-8:], magic)
				m.put(x)
				if n >= 12 {
					copy(x[8:], b[8:12])
					copy(x[n-8:], magic)
					m.put(x)
				}
				if n >= 32 {
					for _, s := range []uint64{4, uint64(n) - 24, uint64(n - 88), 60} {
						y := append([]byte{}, x...)
						binary.LittleEndian.PutUint64(y[n-24:], s)
						m.put(y)
					}
				}
			}
			m.put(nil)
			m.put([]byte(strings.Repeat("VIBE_COL", 30)))
			m.put(bytes.Repeat(magic, 30))
			m.done()
			r.Fact("refuse", "missing file", r.TryOpen(r.Path("nothing")), "err")
			if err := os.Mkdir(r.Path("dir"), 0o755); err != nil {
				panic(err)
			}
			r.Fact("refuse", "directory", r.TryOpen(r.Path("dir")), "err")
		})
	}
}
