package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"verif/harness/vb"
)

func init() {
	profiles["C14"] = commands
	profiles["C14fault"] = commandFaults
}

/* The commands of cmd/vibecol and cmd/loadtest, run as processes. */

// command runs a built command; it returns the exit status (-9: killed or not finished) and its output.
func (c *Ctx) command(r *vb.Run, env []string, name string, args ...string) (int, string) {
	if c.Bin == "" {
		fmt.Fprintln(os.Stderr, "drive: no commands")
		os.Exit(2)
	}
	cmd := exec.Command(filepath.Join(c.Bin, name), args...)
	cmd.Dir = r.Path(".")
	cmd.Env = append(os.Environ(), env...)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(50*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	c.Stats["commands"]++
	switch e := err.(type) {
	case nil:
		return 0, out.String()
	case *exec.ExitError:
		if e.ExitCode() > 0 {
			return e.ExitCode(), out.String()
		}
	}
	return -9, out.String()
}

func number(out, re string) (string, bool) {
	m := regexp.MustCompile(`(?m)^` + re + `\s*$`).FindStringSubmatch(out)
	if m == nil {
		return "", false
	}
	return m[1], true
}

// smallNumber is the number that the output shows (-9: none).
func smallNumber(out, re string) int {
	s, ok := number(out, re)
	if !ok {
		return -9
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return -9
	}
	return vb.Small(n)
}

// shownAgg reads the printed aggregates.
func shownAgg(out string, e vb.Ev) {
	e["count"] = smallNumber(out, `Count:\s*(\d+)`)
	word := func(key, name string) int64 {
		s, ok := number(out, name+`:\s*(-?\d+)`)
		n, err := strconv.ParseInt(s, 10, 64)
		if !ok || err != nil {
			e[key] = vb.W{-9, 0, 0}
			return 0
		}
		e[key] = vb.WI(n)
		return n
	}
	word("min", "Min")
	word("max", "Max")
	sum := word("sum", "Sum")
	s, ok := number(out, `Average:\s*(-?[0-9.]+)`)
	f, err := strconv.ParseFloat(s, 64)
	want := 0.0
	if n, _ := e["count"].(int); n > 0 {
		want = float64(sum) / float64(n)
	}
	e["avgok"] = ok && err == nil && math.Abs(f-want) <= 0.0051+1e-9*math.Abs(want)
}

// What is left at a path after a failure: none, refused, complete (exactly the given pairs) or other.
func left(r *vb.Run, f string, ids []uint64, vals []int64) string {
	if _, err := os.Stat(r.Path(f)); err != nil {
		return "none"
	}
	gi, gv, ok := r.Contents(f)
	if !ok {
		return "refused"
	}
	if len(gi) != len(ids) || len(gv) != len(vals) || len(ids) == 0 {
		return "other"
	}
	for i := range ids {
		if gi[i] != ids[i] || gv[i] != vals[i] {
			return "other"
		}
	}
	return "complete"
}

type tokens struct {
	ids, vals []string
}

// writeCmd runs "vibecol write".
func (c *Ctx) writeCmd(r *vb.Run, n int, f string, ids []uint64, vals []int64, t tokens, valid bool, env ...string) int {
	fresh := true
	if _, err := os.Stat(r.Path(f)); err == nil {
		fresh = false
	}
	args := []string{"write", "-o", f}
	si, sv := strings.Join(t.ids, ","), strings.Join(t.vals, ",")
	if c.Chance(2) {
		args = append(args, "-ids", si, "-values", sv)
	} else {
		args = append(args, "--values="+sv, "--ids="+si)
	}
	x, out := c.command(r, env, "vibecol", args...)
	hit := false
	must := false
	if len(env) > 0 {
		hit, must = c.faultReport(r)
	}
	e := vb.Ev{"op": "cmdwrite", "c": n, "f": f, "valid": valid, "ids": vb.WUs(ids), "vals": vb.WIs(vals), "exit": x,
		"n": smallNumber(out, `Wrote file with (\d+) entries to .*`), "fault": hit, "must": must, "left": "none"}
	if x != 0 && fresh {
		e["left"] = left(r, f, ids, vals)
	}
	r.Add(e)
	return x
}

// readCmd runs "vibecol read".
func (c *Ctx) readCmd(r *vb.Run, f string, dump, agg bool, env ...string) (hit bool) {
	args := []string{"read", "-f", f}
	if dump {
		args = append(args, pickS(c, "--dump", "-dump", "-dump=true"))
	}
	if agg {
		args = append(args, pickS(c, "--agg", "-agg"))
	}
	x, out := c.command(r, env, "vibecol", args...)
	if len(env) > 0 {
		hit, _ = c.faultReport(r)
	}
	e := vb.Ev{"op": "cmdread", "fault": hit, "f": f, "dump": dump, "agg": agg, "exit": x, "version": smallNumber(out, `Version:\s*(\d+)`),
		"nblocks": smallNumber(out, `Blocks:\s*(\d+)`), "count": 0, "min": vb.W{}, "max": vb.W{}, "sum": vb.W{}, "avgok": true}
	ids, vals := []uint64{}, []int64{}
	ok := true
	for _, m := range regexp.MustCompile(`(?m)^(\S+)\t(\S+)\s*$`).FindAllStringSubmatch(out, -1) {
		if m[1] == "ID" || m[1] == "--" {
			continue
		}
		id, e1 := strconv.ParseUint(m[1], 10, 64)
		v, e2 := strconv.ParseInt(m[2], 10, 64)
		if e1 != nil || e2 != nil {
			ok = false
			break
		}
		ids, vals = append(ids, id), append(vals, v)
	}
	e["wellformed"], e["ids"], e["vals"] = ok, vb.WUs(ids), vb.WIs(vals)
	if agg {
		shownAgg(out, e)
	}
	r.Add(e)
	return
}

func pickS(c *Ctx, xs ...string) string { return xs[c.Intn(len(xs))] }

// aggCmd runs "loadtest aggregate".
func (c *Ctx) aggCmd(r *vb.Run, f string, skip bool, par int, env ...string) (hit bool) {
	x, out := c.command(r, env, "loadtest", "aggregate", "-file", f, fmt.Sprintf("-skip-cache=%v", skip), "-parallel", fmt.Sprint(par))
	if len(env) > 0 {
		hit, _ = c.faultReport(r)
	}
	e := vb.Ev{"op": "cmdagg", "fault": hit, "f": f, "skip": skip, "par": par, "exit": x, "version": smallNumber(out, `File version:\s*(\d+)`),
		"enc": smallNumber(out, `Encoding type:\s*(\d+)`), "nblocks": smallNumber(out, `Block count:\s*(\d+)`),
		"scan": smallNumber(out, `Full scan:\s*(\d+) values.*`)}
	shownAgg(out, e)
	r.Add(e)
	return
}

// importCmd runs "loadtest import".
func (c *Ctx) importCmd(r *vb.Run, f string, n, block int, seed, maxV int64, maxID uint64, env ...string) int {
	args := []string{"import", "-n", fmt.Sprint(n), "-block-size", fmt.Sprint(block), "-file", f, "-seed", fmt.Sprint(seed)}
	if maxV != 0 {
		args = append(args, "-max-value", fmt.Sprint(maxV))
	}
	if maxID != 0 {
		args = append(args, "-max-id", fmt.Sprint(maxID))
	}
	x, out := c.command(r, env, "loadtest", args...)
	hit, must := false, false
	if len(env) > 0 {
		hit, must = c.faultReport(r)
	}
	e := vb.Ev{"op": "cmdimport", "f": f, "n": n, "target": block, "exit": x, "values": smallNumber(out, `Total values:\s*(\d+)`),
		"items": smallNumber(out, `Total items written:\s*(\d+)`), "fault": hit, "must": must, "left": "none"}
	if x != 0 {
		e["left"] = left(r, f, nil, nil)
		if e["left"] == "other" {
			if ids, _, _ := r.Contents(f); len(ids) == n {
				e["left"] = "complete"
			}
		}
	}
	r.Add(e)
	return x
}

// Tokens for the lists; sometimes written in other ways that mean the same.
func (c *Ctx) tokens(ids []uint64, vals []int64, plain bool) tokens {
	var t tokens
	for _, x := range ids {
		s := strconv.FormatUint(x, 10)
		if !plain {
			switch c.Intn(8) {
			case 0:
				s = " " + s
			case 1:
				s += " "
			case 2:
				s = "0" + s
			}
		}
		t.ids = append(t.ids, s)
	}
	for _, x := range vals {
		s := strconv.FormatInt(x, 10)
		if !plain {
			switch c.Intn(8) {
			case 0:
				s = "  " + s
			case 1:
				s += "\t"
			case 2:
				if x >= 0 {
					s = "+" + s
				}
			case 3:
				if x == 0 {
					s = "-0"
				}
			}
		}
		t.vals = append(t.vals, s)
	}
	return t
}

var cmdLabels = []string{"cmd", "open"}

func commands(c *Ctx) {
	// Files written by the command, read by the library and by the commands.
	for k := 0; k < c.N(60, 500); k++ {
		c.Run("write", cmdLabels, func(r *vb.Run) {
			n := 1 + c.Intn(12)
			if k%5 == 4 {
				n = []int{120, 126, 127, 128, 500, 999, 1000, 1001, 1010, 1011, 1012, 1013, 1014, 1015, 1016, 1017, 1018, 1019, 1020, 1023, 1024, 1500, 2029}[c.Intn(23)]
			} else if k%15 == 7 { // several blocks' worth
				n = []int{2030, 2048, 2500, 3053, 4000, 6000}[c.Intn(6)]
			}
			ids, vals := c.AnyIDs(n), c.AnyVals(n)
			if c.writeCmd(r, 1, "f.col", ids, vals, c.tokens(ids, vals, n > 600), true) == 0 {
				rd := r.Open("f.col")
				if rd != nil {
					rd.DumpCommand(1)
					rd.Describe()
					rd.Close()
				}
				c.readCmd(r, "f.col", true, c.Chance(2))
				c.readCmd(r, "f.col", c.Chance(2), true)
				c.aggCmd(r, "f.col", c.Chance(2), c.Intn(5)-1)
			} else {
				c.readCmd(r, "f.col", true, true)
			}
			if c.Chance(3) { // again at the same place
				ids, vals = c.AnyIDs(2), c.AnyVals(2)
				if c.writeCmd(r, 2, "f.col", ids, vals, c.tokens(ids, vals, false), true) == 0 {
					rd := r.Open("f.col")
					if rd != nil {
						rd.DumpCommand(2)
						rd.Close()
					}
					c.readCmd(r, "f.col", true, true)
				}
			}
		})
	}
	// Bad input.
	for k := 0; k < c.N(50, 300); k++ {
		c.Run("bad", cmdLabels, func(r *vb.Run) {
			n := 1 + c.Intn(6)
			ids, vals := c.AnyIDs(n), c.AnyVals(n)
			t := c.tokens(ids, vals, true)
			at := c.Intn(n)
			f := "f.col"
			switch c.Intn(9) {
			case 0:
				t.ids = append(t.ids, "7")
			case 1:
				t.vals = append(t.vals, "7")
			case 2:
				t.ids[at] = pickS(c, "", " ", "x", "-1", "1.5", "1e3", "18446744073709551616", "0x10", "1_0", "99999999999999999999", "--1", "١", "1 2", "-0")
			case 3:
				t.vals[at] = pickS(c, "", " ", "x", "1.5", "1e3", "9223372036854775808", "-9223372036854775809", "0x10", "1_0", "+-1", "1 2", "NaN")
			case 4:
				t.ids = nil
			case 5:
				t.vals = nil
			case 6:
				t.ids, t.vals = append(t.ids, ""), append(t.vals, "")
			case 7:
				f = "no/such/dir/f.col"
			case 8:
				if err := os.Mkdir(r.Path("d"), 0o755); err != nil {
					panic(err)
				}
				f = "d"
			}
			c.writeCmd(r, 1, f, ids, vals, t, false)
		})
	}
	for _, args := range [][]string{{}, {"frobnicate"}, {"write"}, {"write", "-ids", "1"}, {"write", "-values", "1"}, {"read", "-f", "missing.col", "--dump"},
		{"read", "-f", "missing.col"}, {"read", "--nonsense"}, {"read", "-f", "."}} {
		c.Run("usage", cmdLabels, func(r *vb.Run) {
			x, _ := c.command(r, nil, "vibecol", args...)
			r.Fact("cmd", "vibecol "+strings.Join(args, " ")+" fails", x > 0, true)
		})
	}
	for _, args := range [][]string{{}, {"frobnicate"}, {"aggregate", "-file", "missing.col"}, {"aggregate", "-file", "."}, {"import", "-n", "x"}, {"import", "-n", "5", "-file", "."},
		{"import", "-n", "5", "-file", "/dev/full"}, {"import", "-n", "5", "-file", "/dev/null/x"}} {
		c.Run("usage", cmdLabels, func(r *vb.Run) {
			x, _ := c.command(r, nil, "loadtest", args...)
			r.Fact("cmd", "loadtest "+strings.Join(args, " ")+" fails", x > 0, true)
		})
	}
	// Things that are not complete files.
	for k := 0; k < c.N(10, 60); k++ {
		c.Run("broken", cmdLabels, func(r *vb.Run) {
			c.smallFile(r, "f.col", c.anyEnc(), 1+c.Intn(3), 9)
			b, err := os.ReadFile(r.Path("f.col"))
			if err != nil {
				panic(err)
			}
			if err := os.WriteFile(r.Path("cut.col"), b[:c.Intn(len(b))], 0o644); err != nil {
				panic(err)
			}
			c.readCmd(r, "cut.col", true, true)
			c.aggCmd(r, "cut.col", c.Chance(2), 0)
		})
	}
	// Files of the library shown by the commands: all encodings, any number of blocks.
	for k := 0; k < c.N(48, 300); k++ {
		c.Run("show", cmdLabels, func(r *vb.Run) {
			enc := uint32(k % 8)
			switch {
			case k%12 == 11:
				w := r.NewWriter("f.col", enc, 4096)
				w.Finalize(true)
			case k%3 == 0:
				c.smallFile(r, "f.col", enc, 1+c.Intn(5), 30)
			default:
				w := r.NewWriter("f.col", enc, 4096)
				n := 1 + c.Intn(700)
				w.WriteAll(c.AnyIDs(n), c.AnyVals(n))
				w.Finalize(true)
			}
			c.readCmd(r, "f.col", true, false)
			c.readCmd(r, "f.col", false, true)
			c.readCmd(r, "f.col", c.Chance(2), c.Chance(2))
			for _, p := range []int{0, -1, 1, 2, 3, 5, 17} {
				if c.Chance(2) || p == 0 {
					c.aggCmd(r, "f.col", c.Chance(2), p)
				}
			}
		})
	}
	// Imports.
	sizes := []int{0, 1, 2, 3, 99, 100, 101, 500, 999, 1000, 1001, 2047, 3333, 9999, 10000, 10001, 12345, 15007, 20000, 20001, 20999}
	for k := 0; k < c.N(len(sizes), 4*len(sizes)); k++ {
		c.Run("import", cmdLabels, func(r *vb.Run) {
			n := sizes[k%len(sizes)]
			block := []int{10000, 4096, 4095, 1, 8192, 16384, 100000, 5000}[c.Intn(8)]
			if n > 3000 && block < 4096 { // a block per pair
				block = 65536
			}
			seed := []int64{c.Int63(), -c.Int63(), int64(c.Intn(100)), 0, 1, -1, 42, math.MaxInt64, math.MinInt64, math.MaxInt32, 1 << 32}[(k+int(c.Seed))%11]
			maxV := []int64{0, 10, 20, 1000, 1 << 40, math.MaxInt64 / 4}[c.Intn(6)]
			maxID := []uint64{0, 1, 2, 1000, 1 << 40, math.MaxInt64}[c.Intn(6)]
			dir := "sub/f.col"
			if c.Chance(2) {
				dir = "f.col"
			}
			if c.importCmd(r, dir, n, block, seed, maxV, maxID) != 0 {
				return
			}
			if rd := r.Open(dir); rd != nil {
				rd.DumpCount(n)
				rd.Describe()
				rd.Close()
			}
			c.aggCmd(r, dir, true, c.Intn(6)-1)
			c.aggCmd(r, dir, false, c.Intn(6)-1)
			if n < 3000 {
				c.readCmd(r, dir, true, true)
			}
			if n <= 10001 { // the seed determines the items
				ids, vals, _ := r.Contents(dir)
				x, _ := c.command(r, nil, "loadtest", "import", "-n", fmt.Sprint(n), "-file", "g.col", "-seed", fmt.Sprint(seed),
					"-max-value", fmt.Sprint(max(maxV, 1000000*b2i(maxV == 0))), "-max-id", fmt.Sprint(max(maxID, 20000000*uint64(b2i(maxID == 0)))))
				i2, v2, _ := r.Contents("g.col")
				r.Fact("cmd", "same seed, same items", x == 0 && fmt.Sprint(ids, vals) == fmt.Sprint(i2, v2), true)
			}
		})
	}
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// faultReport reads what the instrumented command noted about the operation that failed.
func (c *Ctx) faultReport(r *vb.Run) (hit, must bool) {
	b, err := os.ReadFile(r.Path("fault"))
	os.Remove(r.Path("fault"))
	if err != nil {
		return false, false
	}
	k := string(b)
	return true, strings.HasPrefix(k, "write") || strings.HasPrefix(k, "sync") || strings.HasPrefix(k, "close")
}

// readFaults makes reads fail from the k-th on, for every k.
func readFaults(c *Ctx) {
	files := c.N(4, 24)
	for i := 0; i < files; i++ {
		for what := 0; what < 2; what++ {
			for k, hit := 1, true; hit && k < 500; k++ {
				c.Run("read", cmdLabels, func(r *vb.Run) {
					c.smallFile(r, "f.col", c.anyEnc(), 1+c.Intn(4), 12)
					env := []string{fmt.Sprintf("VIBE_FAULT=%d:read", k), "VIBE_FAULT_NAME=f.col", "VIBE_FAULT_REPORT=" + r.Path("fault")}
					if what == 0 {
						hit = c.readCmd(r, "f.col", true, false, env...)
					} else {
						hit = c.aggCmd(r, "f.col", c.Chance(2), c.Intn(4)-1, env...)
					}
					c.readCmd(r, "f.col", true, true)
				})
				c.Stats["faults"]++
			}
		}
	}
}

// commandFaults makes every file operation of the commands fail in turn (commands built with the instrumented os package).
func commandFaults(c *Ctx) {
	readFaults(c)
	modes := []string{"err", "part", "late"}
	for _, mode := range modes {
		for k := 1; k <= 400; k++ {
			miss := false
			c.Run("write-"+mode, cmdLabels, func(r *vb.Run) {
				n := 1 + c.Intn(5)
				ids, vals := c.AnyIDs(n), c.AnyVals(n)
				env := []string{fmt.Sprintf("VIBE_FAULT=%d:%s", k, mode), "VIBE_FAULT_NAME=f.col", "VIBE_FAULT_REPORT=" + r.Path("fault")}
				x := c.writeCmd(r, 1, "f.col", ids, vals, c.tokens(ids, vals, true), true, env...)
				miss = !r.LastBool("fault")
				if x == 0 {
					if rd := r.Open("f.col"); rd != nil {
						rd.DumpCommand(1)
						rd.Close()
					}
					c.readCmd(r, "f.col", true, true)
				}
			})
			if miss {
				break
			}
			c.Stats["faults"]++
		}
		one := func(n, block, k int) (miss bool) {
			c.Run("import-"+mode, cmdLabels, func(r *vb.Run) {
				env := []string{fmt.Sprintf("VIBE_FAULT=%d:%s", k, mode), "VIBE_FAULT_NAME=f.col", "VIBE_FAULT_REPORT=" + r.Path("fault")}
				x := c.importCmd(r, "f.col", n, block, int64(k), 0, 0, env...)
				miss = !r.LastBool("fault")
				if x == 0 {
					if rd := r.Open("f.col"); rd != nil {
						rd.DumpCount(n)
						rd.Close()
					}
				}
			})
			c.Stats["faults"]++
			return
		}
		for k := 1; k < 1000 && !one(12, 4096, k); k++ {
		}
		// Several blocks: some operations, and all of the last ones.
		k, step := 1, c.N(23, 3)
		for ; k < 20000 && !one(900, 4096, k); k += 1 + c.Intn(2*step) {
		}
		for miss, j := 0, max(k-2*step-60, 1); j < k && miss < 3; j++ {
			if one(900, 4096, j) {
				miss++
			}
		}
	}
}
