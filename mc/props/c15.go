package props

import (
	"bytes"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// limitFiles sets the size files of this process may have (and gives back the old limit).
func limitFiles(n uint64) (restore func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic("CHECK BROKEN: " + err.Error())
	}
	signal.Ignore(syscall.SIGXFSZ)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max}); err != nil {
		panic("CHECK BROKEN: " + err.Error())
	}
	return func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic("CHECK BROKEN: " + err.Error())
		}
	}
}

// c15Contents are programs whose files have every kind of part, and sizes around the buffers.
func c15Contents(thorough bool) (out []*model.Group, names []string) {
	add := func(n string, g *model.Group) { out, names = append(out, g), append(names, n) }
	add("empty", &model.Group{})
	add("attrs", &model.Group{Attrs: []model.Attr{{Name: "a", Val: "text"}, {Name: "b", Val: []int16{1, 2, 3}}}})
	for _, t := range model.AllTypes {
		add("var "+t.String(), &model.Group{Vars: []model.Var{{Name: "v", Vals: model.Make(t, []int{3}, 1), Dims: []string{"x"}}}})
		if thorough {
			add("scalar "+t.String(), &model.Group{Vars: []model.Var{{Name: "v", Vals: model.Make(t, nil, 1), Attrs: []model.Attr{{Name: "a", Val: model.Make(t, nil, 2)}}}}})
		}
	}
	add("many", &model.Group{Attrs: []model.Attr{{Name: "a", Val: "text"}}, Vars: []model.Var{
		{Name: "v", Vals: model.Make(reflect.TypeFor[int32](), []int{3, 2}, 1), Dims: []string{"y", "x"}, Attrs: []model.Attr{{Name: "u", Val: "m"}}},
		{Name: "x", Vals: []float64{1, 2}, Dims: []string{"x"}}, {Name: "s", Vals: "text"}, {Name: "b", Vals: []int8{1, 2, 3}, Dims: []string{"y"}}}})
	for _, n := range []int{1000, 1024, 1500} {
		add(fmt.Sprint("big", n), &model.Group{Vars: []model.Var{{Name: "v", Vals: model.Make(reflect.TypeFor[int32](), []int{n}, 1), Dims: []string{"x"}}, {Name: "w", Vals: int16(1)}}})
	}
	if thorough {
		add("big20000", &model.Group{Vars: []model.Var{{Name: "v", Vals: model.Make(reflect.TypeFor[int32](), []int{20000}, 1), Dims: []string{"x"}}}})
	}
	return
}

func c15Group() *model.Group {
	return &model.Group{Attrs: []model.Attr{{Name: "a", Val: []string{"p", "q"}}}, Groups: []*model.Group{
		{Name: "g", Vars: []model.Var{{Name: "v", Vals: []string{"a", "bc"}, Dims: []string{"x"}}}, Groups: []*model.Group{{Name: "h", Vars: []model.Var{{Name: "w", Vals: [][]int32{{1, 2}, {3}}, Dims: []string{"x"}}}}}}}}
}

// c15Run writes with a limit on the file's size; calls reports the errors of the calls.
func c15Run(path string, kind netcdf.FileKind, m *model.Group, limit int64) (fillErr, closeErr, closeErr2 error, problem string) {
	problem = obs.Safe(func() {
		restore := func() {}
		if limit >= 0 {
			restore = limitFiles(uint64(limit))
		}
		defer func() { restore() }()
		w, err := netcdf.OpenWriter(path, kind)
		if err != nil {
			fillErr = err
			closeErr = err
			closeErr2 = err
			return
		}
		_, fillErr = family.Fill(w, m)
		closeErr = w.Close()
		restore() // there is space again
		restore = func() {}
		closeErr2 = w.Close()
	})
	return
}

func c15Check(c *fw.Ctx, kind netcdf.FileKind, m *model.Group, part, parts int, ref []byte) {
	path := filepath.Join(c.Dir, "c15.nc")
	size := int64(len(ref))
	step := func(l int64) int64 {
		if size <= 24000 || c.Thorough() && size <= 100000 || size-l < 600 {
			return 1
		}
		if l%512 == 511 || l%512 == 0 {
			return 1
		}
		return min(511-l%512, size-600-l)
	}
	k := 0
	for l := int64(0); l <= size+1; l += max(1, step(l)) {
		k++
		if k%parts != part {
			continue
		}
		os.Remove(path)
		c.Trans(2)
		c.State(1)
		fillErr, closeErr, closeErr2, p := c15Run(path, kind, m, l)
		stored, _ := os.ReadFile(path)
		complete := bytes.Equal(stored, ref)
		where := fmt.Sprintf("limit %d of %d bytes", l, size)
		switch {
		case p != "":
			c.Failf("%s: %s", where, p)
		case closeErr == nil && !complete:
			c.Failf("%s: Close succeeded with %d bytes stored", where, len(stored))
		case l < size && closeErr == nil:
			c.Failf("%s: Close succeeded", where)
		case l >= size && (closeErr != nil || fillErr != nil || !complete):
			c.Failf("%s: %v %v, complete: %v", where, fillErr, closeErr, complete)
		case closeErr != nil && closeErr2 == nil && !complete:
			c.Failf("%s: second Close succeeded with %d bytes stored", where, len(stored))
		}
		if n := openFDs(path); len(n) > 0 {
			c.Failf("%s: file still open", where)
		}
		if c.Failed() {
			return
		}
		c.Trace(1)
		c.Outcome(fmt.Sprint(closeErr, l >= size, fillErr != nil))
	}
	os.Remove(path)
}

func init() {
	kinds := []struct {
		n string
		k netcdf.FileKind
	}{{"CDF", netcdf.KindCDF}, {"HDF5", netcdf.KindHDF5}}
	fw.Register(&fw.Prop{
		ID: "C15", Level: "model_checking",
		Rule: "each content is written once without faults (the reference) and then once for every number of bytes the file system accepts (RLIMIT_FSIZE, which also makes the write at the limit a short one), from none to more than the file needs; Close must fail exactly when the file is not complete, must not succeed when called again, and must leave no descriptor. " +
			"The same with every system call on the writer's file (open to close, sync included) failing: EIO once or from then on, ENOSPC, nothing done, EINTR, one byte done, all but one byte done, and pairs of such faults. Further cases: files that exist already (7 sizes), a device without space, and writers that can't be opened.",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "37 contents and 2 formats, every system call x 7 faults and pairs of them, every limit (files above 100 KB: around every 512 bytes)"
			}
			return "22 contents and 2 formats, every system call x 7 faults (pairs of them up to 8 calls), every limit (files above 24 KB: around every 512 bytes)"
		},
		Assumptions: []string{"the file system refuses writes beyond a size limit as it refuses them for want of space; failing system calls are answered by a seccomp supervisor; where the sandbox has none, those cases only note it (writers_not_supervised)"},
		Enumerate: func(tier string, y fw.Yield) {
			cs, names := c15Contents(tier == "thorough")
			cs, names = append(cs, c15Group()), append(names, "groups")
			for _, k := range kinds {
				for i, m := range cs {
					if k.k == netcdf.KindCDF && len(m.Groups) > 0 {
						continue
					}
					for part := range 4 {
						y(func() string { return fmt.Sprintf("%s %s part %d/4", k.n, names[i], part) }, func(c *fw.Ctx) {
							ref, _, p := family.Bytes(c.Dir, k.k, m)
							if p != "" {
								c.Failf("not written: %s", p)
								return
							}
							c15Check(c, k.k, m, part, 4, ref)
						})
					}
				}
				for i, m := range cs {
					if k.k == netcdf.KindCDF && len(m.Groups) > 0 {
						continue
					}
					for what, f := range []func(*fw.Ctx, netcdf.FileKind, *model.Group, []byte){c15Sys, c15Over} {
						y(func() string {
							return fmt.Sprintf("%s %s %s", k.n, names[i], []string{"with failing system calls", "over a file"}[what])
						}, func(c *fw.Ctx) {
							ref, _, p := family.Bytes(c.Dir, k.k, m)
							if p != "" {
								c.Failf("not written: %s", p)
								return
							}
							f(c, k.k, m, ref)
						})
					}
				}
				for i, m := range cs {
					if k.k == netcdf.KindCDF && len(m.Groups) > 0 {
						continue
					}
					y(func() string { return fmt.Sprintf("%s %s to a full device", k.n, names[i]) }, func(c *fw.Ctx) {
						path := filepath.Join(c.Dir, "full")
						os.Remove(path)
						if err := os.Symlink("/dev/full", path); err != nil {
							panic("CHECK BROKEN: " + err.Error())
						}
						defer os.Remove(path)
						before := len(openFDs("/dev/full"))
						_, closeErr, closeErr2, p := c15Run(path, k.k, m, -1)
						c.Trans(2)
						c.State(1)
						c.Trace(1)
						if p != "" || closeErr == nil || closeErr2 == nil {
							c.Failf("Close %v, again %v %s", closeErr, closeErr2, p)
						}
						if len(openFDs("/dev/full")) != before {
							c.Failf("device still open")
						}
					})
				}
				for _, bad := range []string{"missing/x.nc", "adir", "file/x.nc", "", "nul\x00", strings.Repeat("n", 300)} {
					y(func() string { return fmt.Sprintf("%s OpenWriter %q", k.n, bad) }, func(c *fw.Ctx) {
						dir, err := os.MkdirTemp(c.Dir, "ow")
						if err != nil {
							panic("CHECK BROKEN: " + err.Error())
						}
						defer os.RemoveAll(dir)
						os.Mkdir(filepath.Join(dir, "adir"), 0o755)
						os.WriteFile(filepath.Join(dir, "file"), nil, 0o644)
						p := filepath.Join(dir, bad)
						if bad == "" {
							p = ""
						}
						var w api.Writer
						c.Trans(1)
						c.State(1)
						c.Trace(1)
						if pan := obs.Safe(func() { w, err = netcdf.OpenWriter(p, k.k) }); pan != "" {
							c.Failf("%s", pan)
							return
						}
						if err == nil || w != nil {
							c.Failf("writer %v, error %v", w != nil, err)
						}
						if n := openFDs(dir); len(n) > 0 {
							c.Failf("left open: %q", n)
						}
					})
				}
			}
		},
	})
}
