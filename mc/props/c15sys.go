package props

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"syscall"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
	"github.com/batchatco/go-native-netcdf/verifmc/sysfault"
)

// sysKinds are the ways in which a system call goes wrong.
var sysKinds = []struct {
	name    string
	from    bool // also for every later call but close
	harm    bool // the caller must hear of it, or not need the call
	applies func(c sysfault.Call) bool
	answer  func(c sysfault.Call) sysfault.Answer
}{
	{"EIO", false, true, func(sysfault.Call) bool { return true }, func(sysfault.Call) sysfault.Answer { return sysfault.Answer{Err: syscall.EIO} }},
	{"EIO from then on", true, true, func(c sysfault.Call) bool { return c.Name != "close" }, func(sysfault.Call) sysfault.Answer { return sysfault.Answer{Err: syscall.EIO} }},
	{"ENOSPC", false, true, func(c sysfault.Call) bool { return c.Name != "read" }, func(sysfault.Call) sysfault.Answer { return sysfault.Answer{Err: syscall.ENOSPC} }},
	{"nothing", false, true, func(c sysfault.Call) bool { return c.Len > 0 }, func(sysfault.Call) sysfault.Answer { return sysfault.Answer{None: true} }},
	{"EINTR", false, false, func(c sysfault.Call) bool { return c.Len > 0 }, func(sysfault.Call) sysfault.Answer { return sysfault.Answer{Err: syscall.EINTR} }},
	{"one byte", false, false, func(c sysfault.Call) bool { return c.Name == "write" && c.Len > 1 }, func(c sysfault.Call) sysfault.Answer { return sysfault.Answer{Short: 1} }},
	{"all but one byte", false, false, func(c sysfault.Call) bool { return c.Name == "write" && c.Len > 1 }, func(c sysfault.Call) sysfault.Answer {
		return sysfault.Answer{Short: c.Len - 1}
	}},
}

// c15Sys makes every system call of a writer on its file fail in every way.
func c15Sys(c *fw.Ctx, kind netcdf.FileKind, m *model.Group, ref []byte) {
	path := filepath.Join(c.Dir, "c15sys.nc")
	run := func(answer func(sysfault.Call) sysfault.Answer) (seen []sysfault.Call, closeErr, again error, problem string, ok bool) {
		os.Remove(path)
		ok = true
		sysfault.Run(func(q sysfault.Call) sysfault.Answer {
			seen = append(seen, q)
			return answer(q)
		}, func(arm func(int) error) {
			problem = obs.Safe(func() {
				next := sysfault.Next()
				w, err := netcdf.OpenWriter(path, kind)
				if err != nil {
					closeErr, again = err, err
					return
				}
				if l, _ := os.Readlink(fmt.Sprint("/proc/self/fd/", next)); l != path {
					ok = false
				} else if err := arm(next); err != nil {
					ok = false
				}
				family.Fill(w, m)
				closeErr = w.Close()
				again = w.Close()
			})
		})
		return
	}
	seen, err, _, p, ok := run(func(sysfault.Call) sysfault.Answer { return sysfault.Answer{} })
	if !ok {
		c.Note("writers_not_supervised", 1)
		return
	}
	stored, _ := os.ReadFile(path)
	if p != "" || err != nil || !bytes.Equal(stored, ref) {
		c.Failf("without faults: %v %s", err, p)
		return
	}
	c.Note("system_calls", len(seen))
	check := func(pos []int, kinds []int) {
		n := -1
		closed := 0
		harm := false
		_, closeErr, again, p, ok := run(func(q sysfault.Call) sysfault.Answer {
			n++
			if q.Name == "close" {
				closed++
			}
			for i, at := range pos {
				k := sysKinds[kinds[i]]
				if (n == at || n > at && k.from && q.Name != "close") && k.applies(q) {
					harm = harm || k.harm
					return k.answer(q)
				}
			}
			return sysfault.Answer{}
		})
		if !ok {
			c.Note("writers_not_supervised", 1)
			return
		}
		where := ""
		for i := range pos {
			where += fmt.Sprintf("%s of call %d (%v) ", sysKinds[kinds[i]].name, pos[i], seen[min(pos[i], len(seen)-1)])
		}
		stored, _ := os.ReadFile(path)
		complete := bytes.Equal(stored, ref)
		switch {
		case p != "":
			c.Failf("%s: %s", where, p)
		case closeErr == nil && !complete:
			c.Failf("%s: Close succeeded with %d of %d bytes stored", where, len(stored), len(ref))
		case closeErr != nil && !harm:
			c.Failf("%s: Close fails (%v)", where, closeErr)
		case closeErr != nil && again == nil && !complete:
			c.Failf("%s: the second Close succeeded", where)
		case closeErr == nil && slices.Contains(kindsAt(pos, kinds, seen, "close"), true):
			c.Failf("%s: Close succeeded although closing the file failed", where)
		case closed != 1:
			c.Failf("%s: file closed %d times", where, closed)
		}
		if n := openFDs(path); len(n) > 0 {
			c.Failf("%s: file still open", where)
		}
		c.Trans(2)
		c.State(1)
		c.Trace(1)
		c.Outcome(fmt.Sprint("sys", closeErr, harm))
	}
	for a, q := range seen {
		for k := range sysKinds {
			if !sysKinds[k].applies(q) {
				continue
			}
			if check([]int{a}, []int{k}); c.Failed() {
				return
			}
			if !c.Thorough() && len(seen) > 8 {
				continue
			}
			for b := a + 1; b < len(seen)+1; b++ {
				for k2 := range sysKinds {
					if b < len(seen) && !sysKinds[k2].applies(seen[b]) {
						continue
					}
					if check([]int{a, b}, []int{k, k2}); c.Failed() {
						return
					}
				}
			}
		}
	}
	os.Remove(path)
}

// kindsAt tells which of the faults are failures of a call of that name (by the reference run,
// so only while no earlier fault changed the calls).
func kindsAt(pos, kinds []int, seen []sysfault.Call, name string) (r []bool) {
	if len(pos) > 1 {
		return nil
	}
	for i, at := range pos {
		r = append(r, at < len(seen) && seen[at].Name == name && sysKinds[kinds[i]].harm)
	}
	return
}

// c15Over writes over files that were there before.
func c15Over(c *fw.Ctx, kind netcdf.FileKind, m *model.Group, ref []byte) {
	path := filepath.Join(c.Dir, "c15over.nc")
	defer os.Remove(path)
	for _, n := range []int{0, 1, len(ref) - 1, len(ref), len(ref) + 1, 2*len(ref) + 10000, 1 << 20} {
		if err := os.WriteFile(path, bytes.Repeat([]byte{0xa5}, n), 0o644); err != nil {
			panic("CHECK BROKEN: " + err.Error())
		}
		_, err, _, p := c15Run(path, kind, m, -1)
		stored, _ := os.ReadFile(path)
		c.Trans(2)
		c.State(1)
		c.Trace(1)
		if p != "" || err != nil || !bytes.Equal(stored, ref) {
			c.Failf("over a file of %d bytes: Close %v %s, %d bytes stored, want the %d that are written where no file was", n, err, p, len(stored), len(ref))
			return
		}
	}
}

// c16Sys opens a file by name while a system call on it fails: a failed open leaves nothing
// open, a good one is closed by Close, and the file is closed once.
func c16Sys(c *fw.Ctx, b []byte) {
	path := filepath.Join(c.Dir, "c16sys.nc")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic("CHECK BROKEN: " + err.Error())
	}
	defer os.Remove(path)
	opens := []struct {
		name string
		f    func(string) (api.Group, error)
	}{{"netcdf.Open", netcdf.Open}, {"cdf.Open", cdf.Open}, {"hdf5.Open", hdf5.Open}}
	for _, o := range opens {
		run := func(answer func(sysfault.Call) sysfault.Answer) (seen []sysfault.Call, err error, problem string) {
			sysfault.Run(func(q sysfault.Call) sysfault.Answer {
				seen = append(seen, q)
				return answer(q)
			}, func(arm func(int) error) {
				// the next number is that of the filter's descriptor, and then comes the file's
				a, e1 := syscall.Open("/dev/null", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
				next := sysfault.Next()
				if e1 != nil {
					panic("CHECK BROKEN: " + e1.Error())
				}
				syscall.Close(a)
				if arm(next) != nil {
					return
				}
				var g api.Group
				problem = obs.Safe(func() { g, err = o.f(path) })
				if err == nil && problem == "" {
					problem = obs.Safe(func() { g.Close() })
				}
				if g != nil && err != nil {
					problem = "a handle and an error"
				}
			})
			return
		}
		seen, _, p := run(func(sysfault.Call) sysfault.Answer { return sysfault.Answer{} })
		if len(seen) == 0 {
			c.Note("opens_not_supervised", 1)
			continue
		}
		if p != "" {
			c.Failf("%s: %s", o.name, p)
			return
		}
		for at, q := range seen {
			for _, k := range sysKinds {
				if !k.applies(q) || q.Name == "close" {
					continue
				}
				n, closed := -1, 0
				_, err, p := run(func(q sysfault.Call) sysfault.Answer {
					n++
					if q.Name == "close" {
						closed++
					}
					if (n == at || n > at && k.from) && q.Name != "close" {
						return k.answer(q)
					}
					return sysfault.Answer{}
				})
				if n < 0 {
					c.Note("opens_not_supervised", 1)
					continue
				}
				where := fmt.Sprintf("%s, %s of call %d (%v)", o.name, k.name, at, q)
				c.Trans(1)
				c.State(1)
				c.Trace(1)
				if p != "" {
					c.Failf("%s: %s", where, p)
				} else if fds := openFDs(path); len(fds) > 0 {
					c.Failf("%s: the file is still open (error %v)", where, err)
				} else if closed != 1 {
					c.Failf("%s: file closed %d times (error %v)", where, closed, err)
				}
				if c.Failed() {
					return
				}
				c.Outcome(fmt.Sprint("sys", errors.Is(err, syscall.EIO), err == nil))
			}
		}
	}
}
