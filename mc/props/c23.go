package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// gTree is a group tree; every group has a number of its own.
type gTree struct {
	name string
	id   int
	path string // absolute
	subs []*gTree
}

func (t *gTree) String() string {
	var s []string
	for _, x := range t.subs {
		s = append(s, x.String())
	}
	return t.name + "(" + strings.Join(s, " ") + ")"
}

func (t *gTree) walk(f func(*gTree)) {
	f(t)
	for _, x := range t.subs {
		x.walk(f)
	}
}

// trees calls f with every tree of up to n groups below the root, of at most a depth.
func trees(names []string, n, depth int, f func(*gTree)) {
	// forest enumerates the sets of children made of names[from:], with at most n nodes.
	var forest func(from, n, depth int, done func(subs []*gTree, left int))
	forest = func(from, n, depth int, done func([]*gTree, int)) {
		if from == len(names) || n == 0 || depth == 0 {
			done(nil, n)
			return
		}
		forest(from+1, n, depth, done)
		forest(0, n-1, depth-1, func(below []*gTree, left int) {
			forest(from+1, left, depth, func(rest []*gTree, left int) {
				done(append([]*gTree{{name: names[from], subs: below}}, rest...), left)
			})
		})
	}
	forest(0, n, depth, func(subs []*gTree, _ int) {
		var copyTree func(t *gTree) *gTree
		copyTree = func(t *gTree) *gTree {
			c := &gTree{name: t.name}
			for _, x := range t.subs {
				c.subs = append(c.subs, copyTree(x))
			}
			return c
		}
		root := copyTree(&gTree{subs: subs})
		id := 0
		var number func(t *gTree, path string)
		number = func(t *gTree, path string) {
			t.id, t.path = id, path
			id++
			for _, x := range t.subs {
				number(x, strings.TrimSuffix(path, "/")+"/"+x.name)
			}
		}
		number(root, "/")
		f(root)
	})
}

// resolve is the specification of path lookup: nil if there is no such group.
func (t *gTree) resolve(root *gTree, path string) *gTree {
	if strings.HasPrefix(path, "/") {
		t = root
	}
	for _, seg := range strings.Split(path, "/") {
		if seg == "" {
			continue
		}
		var next *gTree
		for _, x := range t.subs {
			if x.name == seg {
				next = x
			}
		}
		if next == nil {
			return nil
		}
		t = next
	}
	return t
}

// c23describe renders everything in a group, without its subgroups' contents.
func c23describe(g api.Group) string {
	subs := sortedCopy(g.ListSubgroups())
	s := fmt.Sprintf("subgroups %q dims", subs)
	dims := sortedCopy(g.ListDimensions())
	for _, d := range dims {
		n, has := g.GetDimension(d)
		s += fmt.Sprintf(" %s=%d,%v", d, n, has)
	}
	s += " vars"
	for _, name := range sortedCopy(g.ListVariables()) {
		v, err := g.GetVariable(name)
		if err != nil {
			s += fmt.Sprintf(" %s: %v", name, err)
			continue
		}
		s += fmt.Sprintf(" %s%q=%s", name, v.Dimensions, norm(v.Values))
	}
	return s + " attrs " + h5gen.Norm(obs.SortedAttrs(g.Attributes()))
}

type c23kind struct {
	name string
	// make writes the tree; want is how c23describe shows a group without the subgroups
	make func(c *fw.Ctx, t *gTree) []byte
	want func(t *gTree) string
	// the library's writer defines the dimensions of all groups in the root group
	rootDims bool
}

func c23Model(t *gTree) *model.Group {
	g := &model.Group{Name: t.name, Attrs: []model.Attr{{Name: "id", Val: []int32{int32(t.id), 7}}}}
	d := fmt.Sprintf("d%d", t.id)
	vals := model.Make(reflect.TypeFor[int16](), []int{t.id + 2}, t.id)
	g.Vars = []model.Var{{Name: "v", Vals: vals, Dims: []string{d}}, {Name: fmt.Sprintf("v%d", t.id), Vals: int32(t.id)}}
	for _, x := range t.subs {
		g.Groups = append(g.Groups, c23Model(x))
	}
	return g
}

func c23H5(t *gTree, track, dense bool) *h5gen.Group {
	i2, i4 := family.HInt(2, false, false), family.HInt(4, false, false)
	g := &h5gen.Group{Name: t.name, Track: track, Dense: dense, Attrs: []h5gen.Attr{{Name: "id", T: i4, Shape: []int{2}, Salt: t.id}}}
	for _, x := range t.subs {
		g.Items = append(g.Items, c23H5(x, track, dense))
	}
	g.Items = append(g.Items, &h5gen.Dataset{Name: "v", T: i2, Shape: []int{t.id + 2}, Layout: 'C', All: true, Salt: t.id},
		&h5gen.Dataset{Name: fmt.Sprintf("v%d", t.id), T: i4, Layout: 'C', All: true, Salt: t.id})
	return g
}

func c23NC(t *gTree) *h5gen.NCGroup {
	i2, i4 := family.HInt(2, false, false), family.HInt(4, false, false)
	g := &h5gen.NCGroup{Name: t.name, Attrs: []h5gen.Attr{{Name: "id", T: i4, Shape: []int{2}, Salt: t.id}},
		Dims: []h5gen.NCDim{{Name: "d", Len: t.id + 2}, {Name: fmt.Sprintf("d%d", t.id), Len: t.id + 1}},
		Vars: []*h5gen.NCVar{{Name: "v", T: i2, Dims: []string{"d"}, Shape: []int{t.id + 2}, All: true, Salt: t.id},
			{Name: fmt.Sprintf("v%d", t.id), T: i4, All: true, Salt: t.id}}}
	for _, x := range t.subs {
		g.Groups = append(g.Groups, c23NC(x))
	}
	return g
}

func c23Kinds() (out []c23kind) {
	out = append(out, c23kind{"own", func(c *fw.Ctx, t *gTree) []byte {
		b, _, p := family.Bytes(c.Dir, netcdf.KindHDF5, c23Model(t))
		if p != "" {
			panic("CHECK BROKEN: " + p)
		}
		return b
	}, func(t *gTree) string {
		m := c23Model(t)
		s := "dims"
		if t.path == "/" {
			var dims []string
			t.walk(func(x *gTree) { dims = append(dims, fmt.Sprintf(" d%d=%d,true", x.id, x.id+2)) })
			s += strings.Join(dims, "")
		}
		return s + fmt.Sprintf(" vars v[\"d%d\"]=%s v%d[]=%s attrs ", t.id, norm(m.Vars[0].Vals), t.id, norm(m.Vars[1].Vals)) +
			fmt.Sprintf("%q:true:%s", "id", norm(m.Attrs[0].Val))
	}, true})
	for _, k := range []struct {
		name         string
		libver       int
		track, dense bool
	}{{"hdf5 symbol table", 0, false, false}, {"hdf5 compact links", 1, false, false}, {"hdf5 tracked links", 1, true, false}, {"hdf5 dense links", 1, false, true}, {"hdf5 dense tracked links", 1, true, true}} {
		out = append(out, c23kind{k.name, func(c *fw.Ctx, t *gTree) []byte {
			b, err := h5gen.Bytes(c.Dir, &h5gen.File{Libver: k.libver, Root: c23H5(t, k.track, k.dense)})
			if err != nil {
				panic("CHECK BROKEN: " + err.Error())
			}
			return b
		}, func(t *gTree) string {
			h := c23H5(t, false, false)
			n := len(h.Items)
			return fmt.Sprintf("dims vars v[]=%s v%d[]=%s attrs ", norm(h.Items[n-2].(*h5gen.Dataset).Want()), t.id, norm(h.Items[n-1].(*h5gen.Dataset).Want())) +
				fmt.Sprintf("%q:true:%s", "id", norm(h.Attrs[0].Want()))
		}, false})
	}
	return append(out, c23kind{"netCDF-4", func(c *fw.Ctx, t *gTree) []byte {
		b, err := h5gen.NCBytes(c.Dir, &h5gen.NC{Root: c23NC(t)})
		if err != nil {
			panic("CHECK BROKEN: " + err.Error())
		}
		return b
	}, func(t *gTree) string {
		h := c23NC(t)
		return fmt.Sprintf("dims d=%d,true d%d=%d,true vars v[\"d\"]=%s v%d[]=%s attrs ", t.id+2, t.id, t.id+1, norm(h.Vars[0].Want()), t.id, norm(h.Vars[1].Want())) +
			fmt.Sprintf("%q:true:%s", "id", norm(h.Attrs[0].Want()))
	}, false})
}

// c23Check looks up every path from every handle.
func c23Check(c *fw.Ctx, k c23kind, root *gTree, paths []string) {
	b := k.make(c, root)
	g, err := netcdf.New(family.NewMem(b))
	if err != nil {
		c.Failf("open: %v", err)
		return
	}
	defer g.Close()
	total := 0
	want := map[*gTree]string{}
	root.walk(func(t *gTree) {
		total++
		subs := []string{}
		for _, x := range t.subs {
			subs = append(subs, x.name)
		}
		sort.Strings(subs)
		want[t] = fmt.Sprintf("subgroups %q ", subs) + k.want(t)
	})
	// is compares a handle with the group it must be.
	is := func(h api.Group, t *gTree, how string) bool {
		c.Trace(1)
		if got := c23describe(h); got != want[t] {
			c.Failf("%s must be group %s:\n    want %s\n    got  %s", how, t.path, clip(want[t]), clip(got))
			return false
		}
		// nothing of the others
		for id := range total {
			if id == t.id {
				continue
			}
			n := fmt.Sprintf("v%d", id)
			if _, err := h.GetVariable(n); err == nil {
				c.Failf("%s: GetVariable(%s) gives a variable of another group", how, n)
				return false
			}
			if _, err := h.GetVarGetter(n); err == nil {
				c.Failf("%s: GetVarGetter(%s) gives a variable of another group", how, n)
				return false
			}
			if _, has := h.GetDimension(fmt.Sprintf("d%d", id)); has && !(k.rootDims && t == root) {
				c.Failf("%s: GetDimension(d%d) gives a dimension of another group", how, id)
				return false
			}
			c.Trans(3)
		}
		return true
	}
	if !is(g, root, "the opened file") {
		return
	}
	// lookups tries all paths from a handle of group t.
	lookups := func(h api.Group, t *gTree, how string, full bool) bool {
		for _, p := range paths {
			exp := t.resolve(root, p)
			var x api.Group
			var err error
			c.Trans(1)
			c.State(1)
			if s := obs.Safe(func() { x, err = h.GetGroup(p) }); s != "" {
				c.Failf("from %s: GetGroup(%q): %s", how, p, s)
				return false
			}
			if p == "" && err != nil {
				continue // unspecified
			}
			switch {
			case exp == nil && err == nil:
				c.Failf("from %s: GetGroup(%q) gives a group: %s", how, p, clip(c23describe(x)))
				return false
			case exp != nil && err != nil:
				c.Failf("from %s: GetGroup(%q): %v", how, p, err)
				return false
			case err != nil && x != nil:
				c.Failf("from %s: GetGroup(%q) gives a group and an error", how, p)
				return false
			case err == nil:
				if full && !is(x, exp, fmt.Sprintf("from %s: GetGroup(%q)", how, p)) {
					return false
				}
				if !full {
					// the number identifies the group
					id, _ := x.Attributes().Get("id")
					y, _ := h.GetGroup(exp.path)
					id2, _ := y.Attributes().Get("id")
					y.Close()
					if obs.Render(id) != obs.Render(id2) || fmt.Sprint(x.ListVariables()) == "" {
						c.Failf("from %s: GetGroup(%q) gives another group than %s", how, p, exp.path)
						return false
					}
				}
				x.Close()
			}
		}
		return true
	}
	// Handles got through every way down: one lookup, or a step at a time.
	ok := true
	var steps func(h api.Group, t *gTree)
	steps = func(h api.Group, t *gTree) {
		if ok = ok && lookups(h, t, "the handle of "+t.path+" (step by step)", true); !ok {
			return
		}
		for _, x := range t.subs {
			s, err := h.GetGroup(x.name)
			if err != nil {
				c.Failf("step to %s: %v", x.path, err)
				ok = false
				return
			}
			steps(s, x)
			s.Close()
			if !ok {
				return
			}
		}
	}
	steps(g, root)
	root.walk(func(t *gTree) {
		if !ok {
			return
		}
		h, err := g.GetGroup(t.path)
		if err != nil {
			c.Failf("GetGroup(%q): %v", t.path, err)
			ok = false
			return
		}
		ok = lookups(h, t, "the handle of "+t.path, false)
		h.Close()
	})
	c.Outcome(root.String())
}

// c23Paths lists all paths of up to n segments, absolute and relative, with extra slashes.
func c23Paths(n int) (out []string) {
	segs := []string{"a", "b", "ab", "v", "nope"}
	var rec func(p []string)
	rec = func(p []string) {
		if len(p) > 0 {
			s := strings.Join(p, "/")
			out = append(out, s, "/"+s, s+"/", "/"+s+"/", "//"+s)
			if len(p) > 1 {
				out = append(out, strings.Join(p, "//"), "/"+strings.Join(p, "//"))
			}
		}
		if len(p) < n {
			for _, s := range segs {
				rec(append(append([]string{}, p...), s))
			}
		}
	}
	rec(nil)
	return append(out, "", "/", "//", "A", "/A", "a ", " a", "aa", "a\x00")
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C23", Level: "model_checking",
		Rule: "every group tree of the bounded family, in every form (own writer, symbol table, compact, tracked and dense links, netCDF-4), is opened; from every handle, got in one lookup or step by step, every path of up to n segments is looked up and compared with path resolution in the tree, and every group found must show exactly its own members",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "trees of up to 5 groups below the root with names from {a, b, ab}; paths of up to 3 (some: 4) segments from {a, b, ab, a variable's name, an unused name}, absolute and relative, with single, double and trailing slashes"
			}
			return "trees of up to 4 groups below the root with names from {a, b, ab}; paths of up to 3 (4 groups: 2) segments from {a, b, ab, a variable's name, an unused name}, absolute and relative, with single, double and trailing slashes"
		},
		Enumerate: func(tier string, y fw.Yield) {
			paths := c23Paths(3)
			short := c23Paths(2)
			seen := map[string]bool{}
			each := func(names []string, n int, paths []string) {
				trees(names, n, 4, func(t *gTree) {
					if seen[t.String()] {
						return
					}
					seen[t.String()] = true
					for _, k := range c23Kinds() {
						y(func() string { return k.name + " " + t.String() }, func(c *fw.Ctx) { c23Check(c, k, t, paths) })
					}
				})
			}
			each([]string{"a", "b", "ab"}, 3, paths)
			if tier == "thorough" {
				each([]string{"a", "ab"}, 4, c23Paths(4))
				each([]string{"a", "b", "ab"}, 5, paths)
			} else {
				each([]string{"a", "b", "ab"}, 4, short)
			}
			y(func() string { return "CDF" }, func(c *fw.Ctx) {
				b := corpusBytes(c, corpusSample("cdf1"))
				g, err := netcdf.New(family.NewMem(b))
				if err != nil {
					panic("CHECK BROKEN: " + err.Error())
				}
				want := strings.Join(obs.Dump(g, obs.Opt{Types: true}), "\n")
				for _, p := range paths {
					x, err := g.GetGroup(p)
					c.Trans(1)
					c.State(1)
					switch {
					case p == "" || p == "//":
						continue // unspecified
					case p == "/" && err != nil:
						c.Failf("GetGroup(%q): %v", p, err)
					case p != "/" && err == nil:
						c.Failf("GetGroup(%q) gives a group", p)
					case err == nil:
						c.Trace(1)
						if d := strings.Join(obs.Dump(x, obs.Opt{Types: true}), "\n"); d != want {
							c.Failf("GetGroup(%q)\n    want %s\n    got  %s", p, clip(want), clip(d))
						}
					}
				}
				if n := g.ListSubgroups(); len(n) != 0 {
					c.Failf("subgroups %q", n)
				}
			})
		},
	})
}
