package props

import (
	"fmt"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
	"github.com/batchatco/go-native-netcdf/verifmc/vsched"
)

// c13src is a file whose operations are points where another goroutine may go on.
type c13src struct {
	*family.Mem
}

func (s c13src) Read(p []byte) (int, error) {
	vsched.Point()
	return s.Mem.Read(p)
}

func (s c13src) Seek(o int64, w int) (int64, error) {
	vsched.Point()
	return s.Mem.Seek(o, w)
}

func (s c13src) Close() error {
	vsched.Point()
	return s.Mem.Close()
}

// c13op is what a goroutine does with its own handle.
type c13op struct {
	name  string
	path  string // the group its handle is of
	calls []call // with paths relative to the handle's group
	want  []string
	close bool
}

// c13file has the operations of a file.
type c13file struct {
	name string
	b    []byte
	big  bool // it takes long to open
	ops  []c13op
}

// c13run runs the operations concurrently, once for every schedule with at most bound preemptions.
func c13run(c *fw.Ctx, f *c13file, bound int, closeRoot bool, ops ...c13op) {
	var explore func(prefix []int, used int)
	runs := 0
	explore = func(prefix []int, used int) {
		if c.Failed() {
			return
		}
		runs++
		src := c13src{family.NewMem(f.b)}
		root, err := netcdf.New(src)
		if err != nil {
			panic("CHECK BROKEN: " + err.Error())
		}
		handles := make([]api.Group, len(ops))
		for i, o := range ops {
			if handles[i], err = root.GetGroup(o.path); err != nil {
				panic("CHECK BROKEN: " + err.Error())
			}
		}
		if closeRoot {
			root.Close()
		}
		got := make([][]string, len(ops))
		var fs []func()
		for i, o := range ops {
			fs = append(fs, func() {
				for _, x := range o.calls {
					a, _ := x.run(handles[i], noKeep)
					got[i] = append(got[i], a)
				}
				if o.close {
					if p := obs.Safe(handles[i].Close); p != "" {
						got[i] = append(got[i], p)
					}
				}
			})
		}
		s := &vsched.Sched{Prefix: prefix}
		s.Run(fs...)
		c.State(1)
		c.Trans(s.Points)
		how := func() string {
			var out []string
			for n, d := range s.Decisions {
				if d.Chosen != d.Cur {
					out = append(out, fmt.Sprintf("goroutine %d goes on at choice %d", d.Chosen, n))
				}
			}
			return strings.Join(out, ", ")
		}
		c.Outcome(fmt.Sprint(f.name, s.Decisions))
		if s.Deadlock != "" {
			c.Failf("deadlock (%s): %s", s.Deadlock, how())
			return
		}
		for i, o := range ops {
			for k, a := range got[i] {
				if k >= len(o.want) || a != o.want[k] {
					want := "no panic"
					if k < len(o.want) {
						want = o.want[k]
					}
					c.Failf("goroutine %d, call %d, when %s:\n    alone: %s\n    now:   %s", i, k, how(), clip(want), clip(a))
					return
				}
			}
		}
		for i, o := range ops {
			if !o.close {
				handles[i].Close()
			}
		}
		if closed := src.Closed; closeRoot && closed != 1 || !closeRoot && closed != 0 {
			c.Failf("the file was closed %d times (root closed: %v) when %s", closed, closeRoot, how())
			return
		}
		if !closeRoot {
			root.Close()
		}
		if src.Closed != 1 {
			c.Failf("the file was closed %d times in the end when %s", src.Closed, how())
			return
		}
		c.Trace(1)
		ds := s.Decisions
		for n := len(prefix); n < len(ds); n++ {
			for _, id := range ds[n].Enabled {
				if id == ds[n].Chosen {
					continue
				}
				cost := used
				if ds[n].Preempts(id) {
					cost++
				}
				if cost > bound {
					continue
				}
				next := make([]int, n+1)
				for k := range n {
					next[k] = ds[k].Chosen
				}
				next[n] = id
				explore(next, cost)
			}
		}
	}
	explore(nil, 0)
	c.Note("schedules", runs)
	c.Sample(fmt.Sprintf("%s: %d schedules", c.Desc, runs))
}

// points counts the points of an operation run alone.
func (f *c13file) points(o c13op) int {
	root, err := netcdf.New(c13src{family.NewMem(f.b)})
	if err != nil {
		panic("CHECK BROKEN: " + err.Error())
	}
	defer root.Close()
	h, err := root.GetGroup(o.path)
	if err != nil {
		panic("CHECK BROKEN: " + err.Error())
	}
	defer h.Close()
	s := &vsched.Sched{}
	s.Run(func() {
		for _, x := range o.calls {
			x.run(h, noKeep)
		}
	})
	if !vsched.Instrumented() || !vsched.Race {
		panic("CHECK BROKEN: the code isn't instrumented")
	}
	return s.Points
}

// reduce joins the operations of a group that reach no point (schedules don't matter to them)
// and leaves out those that are like others.
func (f *c13file) reduce() {
	var out []c13op
	keep := 2
	if f.big = len(f.ops) > 40 || strings.HasPrefix(f.name, "nc4"); f.big {
		keep = 1
	}
	quiet := map[string]int{}
	seen := map[string]int{}
	for _, o := range f.ops {
		n := f.points(o)
		if n == 0 {
			i, has := quiet[o.path]
			if !has {
				quiet[o.path] = len(out)
				out = append(out, c13op{name: o.path + ": what needs no file", path: o.path, calls: o.calls, want: o.want})
				continue
			}
			q := &out[i]
			q.calls = append(q.calls[:len(q.calls):len(q.calls)], o.calls...)
			q.want = append(q.want[:len(q.want):len(q.want)], o.want...)
			continue
		}
		words := strings.Fields(o.name)
		what := words[2] // kind of call, for a getter also what is got
		if len(words) > 4 {
			what += words[4]
		}
		key := fmt.Sprint(what, n)
		if seen[key]++; seen[key] > keep {
			continue
		}
		out = append(out, o)
	}
	f.ops = out
}

// c13files lists the files and what is done with them.
func c13files() (out []*c13file) {
	withScratch(func(dir string) {
		for _, s := range family.Corpus() {
			if s.CDF {
				continue
			}
			out = append(out, &c13file{name: s.Name, b: s.Make(dir)})
		}
		// beyond the size of buffers
		i2 := family.HInt(2, false, false)
		big := func(name string, lay byte) *h5gen.Dataset {
			d := &h5gen.Dataset{Name: name, T: i2, Shape: []int{5000}, Layout: lay, All: true, Salt: int(lay)}
			if lay == 'H' {
				d.Chunk = []int{4500}
			}
			return d
		}
		f := family.One(0, big("b", 'C'), &h5gen.Group{Name: "g", Items: []any{big("c", 'H'),
			&h5gen.Dataset{Name: "s", T: family.HVStr(false), Shape: []int{2}, Layout: 'C', All: true}}})
		b, err := h5gen.Bytes(dir, f)
		if err != nil {
			panic("CHECK BROKEN: " + err.Error())
		}
		out = append(out, &c13file{name: "hdf5 large", b: b})
	})
	for _, f := range out {
		g, err := netcdf.New(family.NewMem(f.b))
		if err != nil {
			panic("CHECK BROKEN: " + err.Error())
		}
		var paths []string
		groupPaths(g, "/", 0, &paths)
		for _, p := range paths {
			h, err := g.GetGroup(p)
			if err != nil {
				panic("CHECK BROKEN: " + err.Error())
			}
			for _, x := range callsOf(h, true) {
				if strings.Contains(x.name, "missing") {
					continue
				}
				a, _ := x.run(h, noKeep)
				f.ops = append(f.ops, c13op{name: p + ": " + x.name, path: p, calls: []call{x}, want: []string{a}})
			}
			h.Close()
		}
		g.Close()
		f.reduce()
	}
	return out
}

// c13session strings the operations of one group together, up to a number of them, so that
// little is repeated; the handle is closed in the end.
func (f *c13file) sessions(most int) (out []c13op) {
	byPath := map[string][]c13op{}
	var paths []string
	for _, o := range f.ops {
		if byPath[o.path] == nil {
			paths = append(paths, o.path)
		}
		byPath[o.path] = append(byPath[o.path], o)
	}
	for _, p := range paths {
		l := byPath[p]
		step := max(1, len(l)/most)
		for from := range step {
			s := c13op{path: p, close: true}
			for k := from; k < len(l) && len(s.calls) < most; k += step {
				s.calls = append(s.calls, l[k].calls...)
				s.want = append(s.want, l[k].want...)
				s.name += l[k].name + "; "
			}
			out = append(out, s)
		}
	}
	return out
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C13", Level: "model_checking",
		Rule: "two or three goroutines use their own handles of groups (the same or different ones) of one open HDF5 file, under a scheduler that controls every operation on the file and on the locks of the library; " +
			"for every schedule every call must return what it returns alone, without deadlock, panic or data race (the race detector watches every schedule; it doesn't see the scheduler's handovers), and the file is closed exactly once, when the last handle is",
		Bounds: func(t string) string {
			const what = "all HDF5 files of the corpus and one with large variables; all pairs of calls (of those that do alike, one or two; those without file operations together) with up to %d preemptions, in files with many groups or variables %d; all pairs of sequences of %d calls and a Close (root handle closed before%s) with 1 preemption; triples of a call and a Close with %d preemptions"
			if t == "thorough" {
				return fmt.Sprintf(what, 3, 2, 4, " or after", 1)
			}
			return fmt.Sprintf(what, 2, 1, 3, "", 0)
		},
		Assumptions: []string{"the file itself (an io.ReadSeeker) isn't safe for concurrent use", "a handle is used by one goroutine at a time"},
		Enumerate: func(tier string, y fw.Yield) {
			thorough := tier == "thorough"
			pairBound, seqBound, seqLen := 2, 1, 3
			if thorough {
				pairBound, seqBound, seqLen = 3, 1, 4
			}
			for _, f := range c13files() {
				bound := pairBound
				if f.big {
					bound--
				}
				for i, a := range f.ops {
					for _, b := range f.ops[i:] {
						y(func() string { return fmt.Sprintf("%s: %s | %s", f.name, a.name, b.name) }, func(c *fw.Ctx) {
							c13run(c, f, bound, false, a, b)
						})
					}
				}
				seqs := f.sessions(seqLen)
				for i, a := range seqs {
					for _, b := range seqs[i:] {
						for _, closed := range []bool{true, false} {
							if !closed && !thorough {
								continue
							}
							y(func() string {
								return fmt.Sprintf("%s: root closed=%v: %s Close | %s Close", f.name, closed, a.name, b.name)
							}, func(c *fw.Ctx) {
								c13run(c, f, seqBound, closed, a, b)
							})
						}
					}
				}
				short := f.sessions(1)
				bound = 0
				if thorough {
					bound = 1
				}
				step := max(1, len(short)/8)
				for i := 0; i < len(short); i += step {
					for k := i; k < len(short); k += step {
						for l := k; l < len(short); l += step {
							a, b, d := short[i], short[k], short[l]
							y(func() string { return fmt.Sprintf("%s: %s | %s | %s", f.name, a.name, b.name, d.name) }, func(c *fw.Ctx) {
								c13run(c, f, bound, true, a, b, d)
							})
						}
					}
				}
			}
		},
	})
}
