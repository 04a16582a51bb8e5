// Command drive executes one profile of calls on the real library and writes the recorded traces
// for validation against spec/TraceVibeCol.tla.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"verif/harness/vb"
)

// Ctx is what a profile works with.
type Ctx struct {
	vb.Gen
	Seed     int64
	Thorough bool
	Only     string // record only the trace of this name
	In       string // input file (specification-made behaviours), or ""
	Bin      string // directory of the built commands, or ""
	Dir      string
	Stats    map[string]int
	names    map[string]int
	outDir   string
	batch    []*vb.Run
	weight   int
	nbatch   int
	ntraces  int
	crashed  []string
	samples  []any
	hash     map[string]bool
}

var profiles = map[string]func(*Ctx){}

// N scales a number of repetitions with the tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Run starts a trace; f records it.
func (c *Ctx) Run(name string, labels []string, f func(r *vb.Run)) {
	c.names[name]++
	if n := c.names[name]; n > 1 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	// Every trace has its own source of randomness, so that it can be repeated alone.
	h := c.Seed
	for _, ch := range name {
		h = h*1000003 + int64(ch)
	}
	c.Gen = vb.NewGen(h)
	if c.Only != "" && c.Only != name {
		return
	}
	r := vb.NewRun(c.Dir, name, labels...)
	f(r)
	r.Cleanup()
	c.add(r)
}

func (c *Ctx) add(r *vb.Run) {
	for _, p := range r.Pan {
		c.crashed = append(c.crashed, r.Name+": "+p)
	}
	w := r.Weight()
	d := r.Digest()
	if c.hash[d] { // the same calls with the same results
		c.ntraces++
		return
	}
	c.hash[d] = true
	c.batch = append(c.batch, r)
	c.weight += w
	c.ntraces++
	for _, e := range r.Ev {
		c.Stats["ev."+e["op"].(string)]++
		if o, ok := e["r"].(string); ok && o != "ok" {
			c.Stats["ev."+e["op"].(string)+"."+o]++
		}
	}
	c.Stats["events"] += len(r.Ev)
	if len(c.samples) < 3 && (w < 60 || c.ntraces%7 == 0) && w < 400 {
		c.samples = append(c.samples, r)
	}
	if c.weight > 120000 || len(c.batch) >= 1500 {
		c.flush()
	}
}

func (c *Ctx) flush() {
	if len(c.batch) == 0 {
		return
	}
	// Long traces first: the model checker works on the traces of a batch in parallel.
	sort.SliceStable(c.batch, func(i, j int) bool { return c.batch[i].Weight() > c.batch[j].Weight() })
	// Traces with compressed columns are validated against another root module.
	for kind, runs := range split(c.batch) {
		write(filepath.Join(c.outDir, fmt.Sprintf("%s-%03d.json", kind, c.nbatch)), runs)
	}
	c.nbatch++
	c.batch, c.weight = nil, 0
}

func split(rs []*vb.Run) map[string][]*vb.Run {
	m := map[string][]*vb.Run{}
	for _, r := range rs {
		kind := "traces"
		if r.Compress {
			kind = "runs"
		}
		m[kind] = append(m[kind], r)
	}
	return m
}

func write(path string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}

func main() {
	profile := flag.String("profile", "", "profile to run")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "", "directory for the traces")
	only := flag.String("only", "", "record only this trace")
	in := flag.String("in", "", "input file")
	bin := flag.String("bin", "", "directory of the commands under test")
	flag.Parse()
	p, ok := profiles[*profile]
	if !ok || *out == "" {
		fmt.Fprintln(os.Stderr, "unknown profile", *profile)
		os.Exit(2)
	}
	scratch := filepath.Join(*out, "scratch")
	if err := os.MkdirAll(scratch, 0o755); err != nil {
		panic(err)
	}
	if runtime.GOMAXPROCS(0) < 4 {
		runtime.GOMAXPROCS(4)
	}
	vb.StartWatchdog(60 * time.Second)
	c := &Ctx{Gen: vb.NewGen(*seed), Seed: *seed, Thorough: *tier == "thorough", Only: *only, In: *in, Bin: *bin,
		Dir: scratch, Stats: map[string]int{}, names: map[string]int{}, outDir: *out, hash: map[string]bool{}}
	p(c)
	c.flush()
	os.RemoveAll(scratch)
	for i, s := range c.crashed {
		if i < 5 {
			fmt.Fprintln(os.Stderr, "PANIC in "+strings.SplitN(s, "\n", 2)[0])
		}
	}
	write(filepath.Join(*out, "meta.json"), map[string]any{"traces": c.ntraces, "distinct": len(c.hash),
		"stats": c.Stats, "samples": c.samples, "panics": c.crashed})
}
