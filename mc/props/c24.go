package props

import (
	"fmt"
	"reflect"
	"slices"
	"strings"
	"syscall"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/verifmc/cdfspec"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
	"github.com/batchatco/go-native-netcdf/verifmc/vsched"
)

func lineDiff(want, got string) string {
	return obs.Diff(strings.Split(want, "\n"), strings.Split(got, "\n"))
}

// permutations of 0..n-1, without the identity.
func permutations(n int) (out [][]int) {
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			out = append(out, append([]int{}, p...))
			return
		}
		for i := range n {
			if used&(1<<i) == 0 {
				rec(append(p, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return out[1:]
}

// orders lists the orders that are tried for a map of n elements: all of them if there are few.
func orders(n, full int) (out [][]int) {
	if n <= full {
		return permutations(n)
	}
	make := func(f func(i int) int) {
		p := make([]int, n)
		for i := range p {
			p[i] = f(i)
		}
		out = append(out, p)
	}
	make(func(i int) int { return n - 1 - i })
	make(func(i int) int { return (i + 1) % n })
	make(func(i int) int { return (i + n - 1) % n })
	make(func(i int) int {
		if i < 2 {
			return 1 - i
		}
		return i
	})
	make(func(i int) int {
		if i >= n-2 {
			return 2*n - 3 - i
		}
		return i
	})
	return out
}

// underOrders runs f under all orders of the maps iterated by the code of /repo with at most
// bound iterations out of the sorted order, and under orders applied to all of them. Everything
// that f returns must be what it returns with sorted keys.
func underOrders(c *fw.Ctx, bound, full int, f func() string) {
	var sizes []int
	run := func(order func(i, n int) []int) string {
		sizes = nil
		vsched.Order = func(n int) []int {
			sizes = append(sizes, n)
			return order(len(sizes)-1, n)
		}
		defer func() { vsched.Order = nil }()
		out := f()
		c.State(1)
		c.Trans(1 + len(sizes))
		return out
	}
	want := run(func(int, int) []int { return nil })
	if !vsched.Instrumented() {
		panic("CHECK BROKEN: the code isn't instrumented")
	}
	if again := f(); again != want {
		c.Failf("the same calls give different answers:\n    %s", lineDiff(want, again))
		return
	}
	c.Note("iterations", len(sizes))
	c.Outcome(want)
	c.Sample(c.Desc)
	for k := range 5 {
		got := run(func(_, n int) []int { return orders(n, 0)[k] })
		if got != want {
			c.Failf("with all maps in order %d:\n    %s", k, lineDiff(want, got))
			return
		}
	}
	var explore func(devs map[int][]int, from, left int)
	explore = func(devs map[int][]int, from, left int) {
		if c.Failed() {
			return
		}
		got := run(func(i, n int) []int {
			if p := devs[i]; len(p) == n {
				return p
			}
			return nil
		})
		if got != want {
			c.Failf("with iterations in the orders %v:\n    %s", devs, lineDiff(want, got))
			return
		}
		c.Trace(1)
		if left == 0 {
			return
		}
		all := sizes
		for i := from; i < len(all); i++ {
			for _, p := range orders(all[i], full) {
				devs[i] = p
				explore(devs, i+1, left-1)
				delete(devs, i)
			}
		}
	}
	explore(map[int][]int{}, 0, bound)
}

// c24dump asks a file for everything twice on the same handle.
func c24dump(b []byte) string {
	var g api.Group
	var err error
	if p := obs.Safe(func() { g, err = netcdf.New(family.NewMem(b)) }); p != "" || err != nil {
		return fmt.Sprintf("open: %s %v", p, err)
	}
	defer g.Close()
	var out strings.Builder
	for _, x := range callsOf(g, true) {
		a, _ := x.run(g, noKeep)
		fmt.Fprintf(&out, "%s: %s\n", x.name, a)
	}
	dump := func() string {
		return strings.Join(obs.Dump(g, obs.Opt{AttrTypes: true, Types: true, UserTypes: true, Getter: true}), "\n")
	}
	first := dump()
	out.WriteString(first)
	if again := dump(); again != first {
		out.WriteString("\nTHE SECOND TIME " + again)
	}
	return out.String()
}

// c24levels sets all sequences of levels.
func c24levels(c *fw.Ctx, set func(int) int) {
	start := set(3)
	defer set(start)
	now := 3
	var rec func(path []int)
	rec = func(path []int) {
		if len(path) == 4 {
			c.Trace(1)
			return
		}
		for level := range 4 {
			for _, l := range path { // from the same start
				now = l
				set(l)
			}
			c.Trans(1)
			c.State(1)
			if old := set(level); len(path) > 0 && old != now {
				c.Failf("levels %v, then %d: the old level is %d", path, level, old)
				return
			}
			rec(append(slices.Clone(path), level))
		}
	}
	rec(nil)
}

// atLogLevel runs f with both packages logging at a level, to nowhere.
func atLogLevel(level int, f func()) {
	saved, err := syscall.Dup(2)
	if err != nil {
		panic("CHECK BROKEN: " + err.Error())
	}
	null, err := syscall.Open("/dev/null", syscall.O_WRONLY, 0)
	if err != nil {
		panic("CHECK BROKEN: " + err.Error())
	}
	syscall.Dup3(null, 2, 0)
	syscall.Close(null)
	a, b := cdf.SetLogLevel(level), hdf5.SetLogLevel(level)
	defer func() {
		cdf.SetLogLevel(a)
		hdf5.SetLogLevel(b)
		syscall.Dup3(saved, 2, 0)
		syscall.Close(saved)
	}()
	f()
}

// c24names are given to members in all orders. Sorted, they are neither in the order of their
// numbers nor independent of case.
var c24names = []string{"b", "a10", "a9", "B"}

// c24order is a listing that must be in creation order.
type c24order struct {
	group string // path of the group; "": the root
	kind  string // vars, groups, dims, types, attrs, or "attrs of V"
	want  []string
}

func c24check(c *fw.Ctx, b []byte, want []c24order) {
	g, err := netcdf.New(family.NewMem(b))
	if err != nil {
		c.Failf("open: %v", err)
		return
	}
	defer g.Close()
	for _, w := range want {
		h := g
		if w.group != "" {
			if h, err = g.GetGroup(w.group); err != nil {
				c.Failf("group %s: %v", w.group, err)
				return
			}
			defer h.Close()
		}
		var got []string
		switch w.kind {
		case "vars":
			got = h.ListVariables()
		case "groups":
			got = h.ListSubgroups()
		case "dims":
			got = h.ListDimensions()
		case "types":
			got = h.ListTypes()
		case "attrs":
			got = h.Attributes().Keys()
		default:
			name := strings.TrimPrefix(w.kind, "attrs of ")
			v, err := h.GetVariable(name)
			if err != nil {
				c.Failf("variable %s: %v", name, err)
				return
			}
			got = v.Attributes.Keys()
			vg, err := h.GetVarGetter(name)
			if err != nil {
				c.Failf("variable %s: %v", name, err)
				return
			}
			if k := vg.Attributes().Keys(); !reflect.DeepEqual(k, got) {
				c.Failf("%s%s: %q or %q", w.group, w.kind, got, k)
				return
			}
		}
		c.Trans(1)
		if len(got) != len(w.want) || len(got) > 0 && !reflect.DeepEqual(got, w.want) {
			c.Failf("%s %s in creation order:\n    want: %q\n    got:  %q", w.group, w.kind, w.want, got)
			return
		}
	}
	c.Trace(1)
}

func c24orderCases(thorough bool, y fw.Yield) {
	i2 := family.HInt(2, false, false)
	file := func(tag string, names []string, mk func(dir string) ([]byte, error), want ...c24order) {
		y(func() string { return fmt.Sprintf("created in order: %s %q", tag, names) }, func(c *fw.Ctx) {
			c.State(1)
			b, err := mk(c.Dir)
			if err != nil {
				panic("CHECK BROKEN: " + err.Error())
			}
			c24check(c, b, want)
			if !c.Failed() && len(names) <= 40 {
				underOrders(c, 0, 0, func() string { return c24dump(b) })
			}
		})
	}
	var lists [][]string
	perms := append([][]int{{0, 1, 2, 3}}, permutations(4)...)
	for _, p := range perms {
		for n := 2; n <= 4; n++ {
			if n == 2 && p[2] > p[3] || n == 4 && !thorough && p[0] > p[1] {
				continue // the same as another one, or nearly so
			}
			var l []string
			for _, i := range p[:n] {
				l = append(l, c24names[i])
			}
			lists = append(lists, l)
		}
	}
	for _, n := range []int{9, 12, 40, 300} { // beyond 8 there are other structures, and beyond 256 wider numbers
		for how := range 4 {
			l := make([]string, n)
			for i := range l {
				k := i
				switch how {
				case 1:
					k = n - 1 - i
				case 2:
					k = (i * 7) % n
				case 3:
					k = i / 2
					if i%2 == 1 {
						k = n - 1 - i/2
					}
				}
				l[i] = fmt.Sprintf("n%d", k)
			}
			if how == 2 && n%7 == 0 || n > 40 && !thorough && how != 2 {
				continue
			}
			lists = append(lists, l)
		}
	}
	for _, l := range lists {
		// libhdf5, with links and attributes compact or dense, and with gaps
		for _, dense := range []bool{false, true} {
			for _, gap := range []int{-1, 0, 1} {
				want := append([]string{}, l...)
				f := family.One(1)
				f.Root.Track, f.Root.Dense = true, dense
				g2 := &h5gen.Group{Name: "G", Track: true, Dense: dense}
				d := &h5gen.Dataset{Name: "V", T: i2, Layout: 'C', All: true, Track: true}
				da := &h5gen.Group{Name: "A", Track: true, DenseA: dense}
				if dense {
					d.Dense = 2
				}
				for i, n := range l {
					f.Root.Items = append(f.Root.Items, &h5gen.Dataset{Name: n, T: i2, Layout: 'C', All: true, Salt: i})
					g2.Items = append(g2.Items, &h5gen.Group{Name: n})
					d.Attrs = append(d.Attrs, h5gen.Attr{Name: n, T: i2, Salt: i, Del: i == gap})
					da.Attrs = append(da.Attrs, h5gen.Attr{Name: n, T: i2, Salt: i, Del: i == gap})
				}
				if gap >= 0 {
					f.Root.Del = []string{l[gap]}
					g2.Del = []string{l[gap]}
					want = append(want[:gap], want[gap+1:]...)
				}
				f.Root.Items = append(f.Root.Items, g2, d, da)
				file(fmt.Sprintf("libhdf5 dense=%v without %d", dense, gap), l, func(dir string) ([]byte, error) { return h5gen.Bytes(dir, f) },
					c24order{"", "vars", append(append([]string{}, want...), "V")}, c24order{"", "groups", []string{"G", "A"}},
					c24order{"G", "groups", want}, c24order{"", "attrs of V", want}, c24order{"A", "attrs", want})
			}
		}
		// netCDF-C
		for _, mode := range []string{"dims", "coordinates", "some coordinates", "types"} {
			r := &h5gen.NCGroup{}
			var vars, groups []string
			attr := func(n string) h5gen.Attr { return h5gen.Attr{Name: n, T: i2} }
			for _, n := range l {
				r.Attrs = append(r.Attrs, attr(n))
			}
			want := []c24order{{"", "attrs", l}}
			if mode == "types" {
				var types []string
				for i, n := range l {
					t := *family.HComp(i2, family.HInt(4, false, false))
					if i%2 == 1 {
						t = *family.HOpaque(3 + i)
					}
					t.Named = "T" + n
					types = append(types, t.Named)
					r.Types = append(r.Types, &t)
				}
				want = append(want, c24order{"", "types", types})
			} else {
				for _, n := range l {
					r.Dims = append(r.Dims, h5gen.NCDim{Name: n, Len: 2})
				}
				want = append(want, c24order{"", "dims", l})
			}
			for i, n := range l {
				v := &h5gen.NCVar{Name: "v" + n, T: i2, All: true}
				if mode == "coordinates" || mode == "some coordinates" && i%2 == 1 {
					v = &h5gen.NCVar{Name: n, T: i2, All: true, Dims: []string{n}, Shape: []int{2}}
				}
				for _, n := range l {
					if len(l) <= 40 || i == 1 {
						v.Attrs = append(v.Attrs, attr(n))
					}
				}
				r.Vars, vars = append(r.Vars, v), append(vars, v.Name)
				groups = append(groups, "g"+n)
				g := &h5gen.NCGroup{Name: "g" + n, Vars: []*h5gen.NCVar{{Name: "x", T: i2, All: true}}}
				if len(l) <= 40 || i == 0 {
					g.Attrs = r.Attrs
				}
				r.Groups = append(r.Groups, g)
			}
			want = append(want, c24order{"", "vars", vars}, c24order{"", "groups", groups}, c24order{"", "attrs of " + vars[1], l}, c24order{groups[0], "attrs", l})
			file("netCDF-C "+mode, l, func(dir string) ([]byte, error) { return h5gen.NCBytes(dir, &h5gen.NC{Root: r}) }, want...)
		}
		// classic
		f := &cdfspec.File{Version: 1}
		for i, n := range l {
			a := cdfspec.Attr{Name: n, Type: cdfspec.Short, N: 1, Data: []byte{0, byte(i)}}
			f.Attrs = append(f.Attrs, a)
			f.Dims = append(f.Dims, cdfspec.Dim{Name: n, Len: 2})
		}
		for i, n := range l {
			v := cdfspec.Var{Name: n, Type: cdfspec.Short, DimIDs: []int{(i + 1) % len(l)}, Data: make([]byte, 4)}
			if len(l) <= 40 || i == 0 {
				v.Attrs = f.Attrs
			}
			f.Vars = append(f.Vars, v)
		}
		file("classic", l, func(string) ([]byte, error) { return cdfspec.Encode(f, cdfspec.Options{}), nil },
			c24order{"", "vars", l}, c24order{"", "dims", l}, c24order{"", "attrs", l}, c24order{"", "attrs of " + l[0], l})
		// the writer of the classic format
		m := &model.Group{}
		for i, n := range l {
			m.Attrs = append(m.Attrs, model.Attr{Name: n, Val: int16(i)})
		}
		for i, n := range l {
			v := model.Var{Name: n, Vals: int16(i)}
			if len(l) <= 40 || i == 0 {
				v.Attrs = m.Attrs
			}
			m.Vars = append(m.Vars, v)
		}
		file("CDF writer", l, func(dir string) ([]byte, error) {
			b, _, p := family.Bytes(dir, netcdf.KindCDF, m)
			if p != "" {
				return nil, fmt.Errorf("%s", p)
			}
			return b, nil
		}, c24order{"", "vars", l}, c24order{"", "attrs", l}, c24order{"", "attrs of " + l[0], l})
	}
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C24", Level: "model_checking",
		Rule: "the code is built with every iteration of a map under control; for every file of a corpus and every writer program, all answers must be the same for every order of every iteration; members created in every order of a few names are listed in that order; and every answer is the same at every log level",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "for everything asked of a file: one iteration out of sorted order (all permutations of up to 5 keys, else 5 orders); for each single call: two iterations (all permutations of up to 3 keys, else 5 orders), and 5 orders for all iterations together; every 5th and every 31st writer program; all creation orders of 2..4 names, 4 of 9, 12, 40 and 300; every file of the corpus at every log level, all sequences of settings of the level"
			}
			return "one iteration out of sorted order (all permutations of up to 4 keys, else 5 orders), and 5 orders for all iterations together; every 31st writer program; all creation orders of 2 and 3 names, half of those of 4, 4 of 9, 12 and 40, 1 of 300; every file of the corpus at every log level, all sequences of settings of the level"
		},
		Assumptions: []string{"goroutines aren't involved", "the HDF5 writer doesn't record the order of calls"},
		Enumerate: func(tier string, y fw.Yield) {
			thorough := tier == "thorough"
			full := 4
			if thorough {
				full = 5
			}
			for i, set := range []func(int) int{cdf.SetLogLevel, hdf5.SetLogLevel} {
				y(func() string { return fmt.Sprintf("log levels of package %d", i) }, func(c *fw.Ctx) {
					c24levels(c, set)
				})
			}
			for _, s := range family.Corpus() {
				y(func() string { return "reading " + s.Name + " at every log level" }, func(c *fw.Ctx) {
					b := s.Make(c.Dir)
					want := c24dump(b)
					for level := range 4 {
						got := ""
						atLogLevel(level, func() { got = c24dump(b) })
						c.State(1)
						c.Trans(1)
						if got != want {
							c.Failf("at log level %d\n    got %s\n    instead of %s", level, clip(got), clip(want))
							return
						}
					}
				})
				y(func() string { return "reading " + s.Name }, func(c *fw.Ctx) {
					b := s.Make(c.Dir)
					underOrders(c, 1, full, func() string { return c24dump(b) })
				})
				if !thorough {
					continue
				}
				var calls []call
				withScratch(func(dir string) {
					g, err := netcdf.New(family.NewMem(s.Make(dir)))
					if err != nil {
						panic("CHECK BROKEN: " + err.Error())
					}
					calls = callsOf(g, true)
					g.Close()
				})
				for _, x := range calls {
					y(func() string { return "reading " + s.Name + ": " + x.name }, func(c *fw.Ctx) {
						b := s.Make(c.Dir)
						underOrders(c, 2, 3, func() string {
							g, err := netcdf.New(family.NewMem(b))
							if err != nil {
								return "open: " + err.Error()
							}
							defer g.Close()
							a, _ := x.run(g, noKeep)
							return a
						})
					})
				}
			}
			n := 0
			write := func(kind netcdf.FileKind) func(desc func() string, mk func() *model.Group) {
				return func(desc func() string, mk func() *model.Group) {
					if n++; n%31 != 0 && !(thorough && n%5 == 0) {
						return
					}
					y(func() string { return "writing " + desc() }, func(c *fw.Ctx) {
						m := mk()
						if kind == netcdf.KindHDF5 && len(m.Vars) > 40 {
							return
						}
						underOrders(c, 1, full, func() string {
							b, _, p := family.Bytes(c.Dir, kind, m)
							if p != "" {
								return p
							}
							// (the order itself is a matter for the other cases)
							vsched.Order = nil
							return c24dump(b)
						})
					})
				}
			}
			family.CDFPrograms(thorough, write(netcdf.KindCDF))
			h := write(netcdf.KindHDF5)
			family.H5Programs(thorough, func(_ bool, desc func() string, mk func() *model.Group) { h(desc, mk) })
			c24orderCases(thorough, y)
		},
	})
}
