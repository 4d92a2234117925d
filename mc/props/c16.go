package props

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// corpusBytes makes the files of the corpus once per process.
var corpusMade = map[string][]byte{}

func corpusBytes(c *fw.Ctx, s family.Sample) []byte {
	if b, has := corpusMade[s.Name]; has {
		return b
	}
	b := s.Make(c.Dir)
	corpusMade[s.Name] = b
	return b
}

func corpusSample(name string) family.Sample {
	for _, s := range family.Corpus() {
		if s.Name == name {
			return s
		}
	}
	panic("CHECK BROKEN: no sample " + name)
}

// openFDs lists the descriptors that refer to files in a directory.
func openFDs(dir string) (out []string) {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic("CHECK BROKEN: " + err.Error())
	}
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, dir) {
			out = append(out, l)
		}
	}
	sort.Strings(out)
	return out
}

// one handle of the exploration
type c16handle struct {
	g    api.Group
	path string // of its group
	open bool
}

type c16run struct {
	mem     *family.Mem // nil: opened by name
	dir     string
	handles []*c16handle
	want    map[string][]string // dump by group path
}

func (r *c16run) isClosed() (closed bool, bad string) {
	if r.mem != nil {
		if r.mem.Closed > 1 {
			return true, fmt.Sprintf("the file was closed %d times", r.mem.Closed)
		}
		return r.mem.Closed == 1, ""
	}
	n := len(openFDs(r.dir))
	if n > 1 {
		return false, fmt.Sprintf("%d descriptors of the file", n)
	}
	return n == 0, ""
}

var c16opt = obs.Opt{Types: true, Getter: true, NoSubgroup: true}

// c16paths are the groups asked for, from the handle's own group.
func c16targets(cdfKind bool, from string) (paths []string, to []string) {
	if cdfKind {
		return []string{"/", "nope"}, []string{"/", ""}
	}
	switch from {
	case "/":
		return []string{"/", "g", "g/h", "nope"}, []string{"/", "/g", "/g/h", ""}
	case "/g":
		return []string{"/", "h", "nope"}, []string{"/", "/g/h", ""}
	}
	return []string{"/g", "nope"}, []string{"/g", ""}
}

// c16Explore runs all operation sequences to the depth, each on a fresh file.
func c16Explore(c *fw.Ctx, s family.Sample, byName bool, depth, maxHandles int, first int) {
	b := corpusBytes(c, s)
	path := filepath.Join(c.Dir, "c16.nc")
	if byName {
		if err := os.WriteFile(path, b, 0o644); err != nil {
			panic("CHECK BROKEN: " + err.Error())
		}
		defer os.Remove(path)
	}
	start := func() *c16run {
		r := &c16run{dir: path}
		var g api.Group
		var err error
		if byName {
			g, err = netcdf.Open(path)
		} else {
			r.mem = family.NewMem(b)
			g, err = netcdf.New(r.mem)
		}
		if err != nil {
			c.Failf("open: %v", err)
			return nil
		}
		r.handles = []*c16handle{{g, "/", true}}
		return r
	}
	want := map[string][]string{}
	type op struct {
		kind string // get, close, read
		h    int
		path string
		to   string
	}
	ops := func(r *c16run) (out []op) {
		for i, h := range r.handles {
			out = append(out, op{"close", i, "", ""})
			if !h.open {
				continue
			}
			out = append(out, op{"read", i, "", ""})
			ps, to := c16targets(s.CDF, h.path)
			for k := range ps {
				if to[k] != "" && len(r.handles) >= maxHandles {
					continue
				}
				out = append(out, op{"get", i, ps[k], to[k]})
			}
		}
		return out
	}
	apply := func(r *c16run, o op) (bad string) {
		c.Trans(1)
		h := r.handles[o.h]
		if p := obs.Safe(func() {
			switch o.kind {
			case "close":
				h.g.Close()
				h.open = false
			case "read":
				got := obs.Dump(h.g, c16opt)
				if want[h.path] == nil {
					want[h.path] = got
				}
				if d := obs.Diff(want[h.path], got); d != "" {
					bad = "a handle of " + h.path + " reads differently: " + d
				}
			case "get":
				g, err := h.g.GetGroup(o.path)
				if (err == nil) != (o.to != "") {
					bad = fmt.Sprintf("GetGroup %q from %s: %v", o.path, h.path, err)
				}
				if err == nil {
					r.handles = append(r.handles, &c16handle{g, o.to, true})
				}
			}
		}); p != "" {
			return p
		}
		if bad != "" {
			return bad
		}
		nOpen := 0
		for _, h := range r.handles {
			if h.open {
				nOpen++
			}
		}
		closed, bad := r.isClosed()
		if bad == "" && closed != (nOpen == 0) {
			bad = fmt.Sprintf("file closed: %v with %d open handles", closed, nOpen)
		}
		return bad
	}
	// reference values, read when everything is open and fresh
	for _, p := range []string{"/", "/g", "/g/h"} {
		r := start()
		if r == nil {
			return
		}
		if g, err := r.handles[0].g.GetGroup(p); err == nil {
			want[p] = obs.Dump(g, c16opt)
			g.Close()
		}
		r.handles[0].g.Close()
	}
	var seq []int
	// A sequence is replayed from the start for each extension.
	var rec func() bool
	rec = func() bool {
		r := start()
		if r == nil {
			return false
		}
		var trail []string
		for _, k := range seq {
			o := ops(r)[k]
			trail = append(trail, fmt.Sprintf("%s(%d%s)", o.kind, o.h, map[bool]string{true: "," + o.path}[o.path != ""]))
			if bad := apply(r, o); bad != "" {
				c.Failf("%s: %s", strings.Join(trail, " "), bad)
				return false
			}
		}
		n := len(ops(r))
		c.State(1)
		c.Outcome(strings.Join(trail, " "))
		// release, and check that every handle can be given back in the end
		for i, h := range r.handles {
			if h.open {
				if bad := apply(r, op{"close", i, "", ""}); bad != "" {
					c.Failf("%s, closing the rest: %s", strings.Join(trail, " "), bad)
					return false
				}
			}
		}
		c.Trace(1)
		if len(seq) == depth {
			return true
		}
		for k := range n {
			if len(seq) == 0 && k != first {
				continue
			}
			seq = append(seq, k)
			if !rec() {
				return false
			}
			seq = seq[:len(seq)-1]
		}
		return true
	}
	rec()
}

// failing is a source whose k-th operation fails.
type failing struct {
	*family.Mem
	left int
}

var errInjected = errors.New("injected")

func (f *failing) step() error {
	f.left--
	if f.left < 0 {
		return errInjected
	}
	return nil
}

func (f *failing) Read(p []byte) (int, error) {
	if err := f.step(); err != nil {
		return 0, err
	}
	return f.Mem.Read(p)
}

func (f *failing) Seek(o int64, w int) (int64, error) {
	if err := f.step(); err != nil {
		return 0, err
	}
	return f.Mem.Seek(o, w)
}

// c16Failed opens a damaged source in every way and checks who owns the file afterwards.
func c16Failed(c *fw.Ctx, b []byte) {
	path := filepath.Join(c.Dir, "c16f.nc")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic("CHECK BROKEN: " + err.Error())
	}
	defer os.Remove(path)
	for name, open := range map[string]func(string) (api.Group, error){"netcdf.Open": netcdf.Open, "cdf.Open": cdf.Open, "hdf5.Open": hdf5.Open} {
		var g api.Group
		var err error
		c.Trans(1)
		p := obs.Safe(func() { g, err = open(path) })
		if p == "" && err == nil {
			if n := len(openFDs(path)); n != 1 {
				c.Failf("%s: %d descriptors after an open that worked", name, n)
			}
			g.Close()
		}
		if n := len(openFDs(path)); n != 0 {
			c.Failf("%s: %d descriptors left open (error %v %s)", name, n, err, p)
			return
		}
	}
	for name, nw := range map[string]func(api.ReadSeekerCloser) (api.Group, error){"netcdf.New": netcdf.New, "cdf.New": cdf.New, "hdf5.New": hdf5.New} {
		m := family.NewMem(b)
		var g api.Group
		var err error
		c.Trans(1)
		p := obs.Safe(func() { g, err = nw(m) })
		want := 0
		if p == "" && err == nil {
			if m.Closed != 0 {
				c.Failf("%s closed the file though it succeeded", name)
				return
			}
			g.Close()
			want = 1
		}
		if m.Closed != want {
			c.Failf("%s: file closed %d times, want %d (error %v %s)", name, m.Closed, want, err, p)
			return
		}
		if err != nil && g != nil {
			c.Failf("%s: a handle and an error", name)
		}
	}
	c.State(1)
	c.Trace(1)
}

var _ io.ReadSeekCloser = (*failing)(nil)

func init() {
	fw.Register(&fw.Prop{
		ID: "C16", Level: "model_checking",
		Rule: "every sequence of GetGroup (existing and missing, absolute and relative), reads and Close (of open and of already closed handles) up to the depth on real handles of a file, replayed from a fresh open for each sequence; after each operation the number of closes of the file (or of open descriptors) is compared with the model (closed once, when the last handle is), and every read with what the group contains. " +
			"Further cases: opens that fail: every truncation of every corpus file, an error at every read and seek of the source, and, for files opened by name, every system call on their descriptor failing (seccomp supervisor).",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "depth 6, 4 handles, by name and by file object; every truncation of every corpus file below 16 KB"
			}
			return "depth 5, 4 handles, by name and by file object; every truncation of every corpus file below 8 KB (others: every 16th)"
		},
		Assumptions: []string{"a handle that was closed is not used for reading (unspecified)"},
		Enumerate: func(tier string, y fw.Yield) {
			depth := 5
			if tier == "thorough" {
				depth = 6
			}
			for _, s := range []family.Sample{corpusSample("cdf own"), corpusSample("hdf5 own")} {
				for _, byName := range []bool{false, true} {
					d := depth
					if byName {
						d--
					}
					for first := range 6 {
						if s.CDF && first >= 4 {
							continue
						}
						y(func() string { return fmt.Sprintf("handles %s byname=%v first=%d depth=%d", s.Name, byName, first, d) },
							func(c *fw.Ctx) { c16Explore(c, s, byName, d, 4, first) })
					}
				}
			}
			for _, s := range family.Corpus() {
				for part := range 4 {
					y(func() string { return fmt.Sprintf("truncated %s %d/4", s.Name, part) }, func(c *fw.Ctx) {
						b := corpusBytes(c, s)
						step := 1
						if len(b) > 8192 && tier != "thorough" {
							step = 16
						}
						for n := part * step; n <= len(b) && !c.Failed(); n += 4 * step {
							c16Failed(c, b[:n])
						}
					})
				}
				y(func() string { return "failing system calls " + s.Name }, func(c *fw.Ctx) { c16Sys(c, corpusBytes(c, s)) })
				y(func() string { return "failing source " + s.Name }, func(c *fw.Ctx) {
					b := corpusBytes(c, s)
					for name, nw := range map[string]func(api.ReadSeekerCloser) (api.Group, error){"netcdf.New": netcdf.New, "cdf.New": cdf.New, "hdf5.New": hdf5.New} {
						for k := 0; ; k++ {
							f := &failing{family.NewMem(b), k}
							var g api.Group
							var err error
							c.Trans(1)
							c.State(1)
							p := obs.Safe(func() { g, err = nw(f) })
							if f.left >= 0 { // nothing was injected
								if err == nil {
									g.Close()
								}
								break
							}
							want := 0
							if err == nil && p == "" {
								g.Close()
								want = 1
							}
							if f.Closed != want || g != nil && err != nil {
								c.Failf("%s, operation %d failing: file closed %d times, want %d (error %v %s)", name, k, f.Closed, want, err, p)
								return
							}
							c.Trace(1)
						}
					}
				})
			}
		},
	})
}
